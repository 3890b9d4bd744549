#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 'delayed_image/delayed_nodes.py'
L = 'delayed_image/delayed_leafs.py'
Z = 'delayed_image/lazy_loaders.py'
C = 'delayed_image/channel_spec.py'
S = 'delayed_image/sensorchan_spec.py'
B = 'delayed_image/delayed_base.py'
H = 'delayed_image/helpers.py'

# id, title, statement, over, quantifier text, why tests can't, mechanisms
P = []


def prop(id, title, statement, over, text, why, mech, level_note):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), mech=mech,
                  note=' '.join(level_note.split())))


GRAPHS = '''every graph of image operations (load, crop, padded crop, channel
selection, warp, resize, overview, dequantize, evaluate, concatenate, as xarray),
over arrays, raster files with and without stored overviews, and empty parts'''
FEW = '''Tests and doctests run a handful of fixed chains on two or three demo
images; '''

prop('C01', 'Optimizing never changes what an image announces',
     '''Optimizing a graph of image operations, once or repeatedly, leaves its
     announced height, width, number of channels and channel names as they were,
     and these are the ones the operations imply.''',
     ['programs', 'inputs'], GRAPHS,
     FEW + '''which rewrites fire, and with which intermediate sizes, depends on
     the whole chain, so only arbitrary chains reach their combinations.''',
     [('crop / warp / overview / dequantize rewrites', N + ' *.optimize, _opt_*'),
      ('announced shape and channels', N + ' DelayedImage.shape, channels')],
     '''Random graphs against an independent model of sizes and names. Canvas
     sizes that fall on a rounding edge are not compared with the model.''')
prop('C02', 'The delivered array has exactly the announced shape',
     '''Finalizing any image, optimized or not, prepared or not, delivers a three
     dimensional array whose height, width and channel count are the announced
     ones.''',
     ['programs', 'inputs'], GRAPHS,
     FEW + '''shapes are asserted in few of them and hardly ever for the
     unoptimized delivery.''',
     [('delivery', N + ' *._finalize'), ('delivery', B + ' DelayedUnaryOperation.finalize'),
      ('file reads', Z + ' LazyGDalFrameFile.__getitem__')],
     '''Random graphs; interpolations and data types OpenCV cannot process are
     not generated.''')
prop('C03', 'Operations that do not resample deliver exactly the NumPy result',
     '''Crops, channel selections, concatenations, dequantization, evaluation and
     conversion to xarray, in any composition, deliver exactly the values that the
     same NumPy indexing and arithmetic gives on the source pixels, optimized or
     not.''',
     ['programs', 'inputs'], '''every composition of non-resampling operations over
     arrays, raster files and empty parts, with every kind of index''',
     FEW + '''a wrong but correctly sized region or a swapped channel goes unseen
     for most compositions.''',
     [('crop fusion', N + ' DelayedCrop._opt_fuse_crops'),
      ('channel take', N + ' DelayedChannelConcat.take_channels'),
      ('xarray', N + ' DelayedAsXarray._finalize')],
     'Random graphs against a NumPy reference, exact up to float32 rounding.')
prop('C04', 'Every delivered pixel shows the place its transforms say',
     '''A delivered pixel shows the point of the source that the composed
     operations map onto that pixel's center, optimized or not, also when stored
     overviews are read instead of the full image. A pixel whose point is outside
     of the source delivers no data.''',
     ['programs', 'inputs'], GRAPHS + ', with arbitrary affine transforms',
     FEW + '''shifts of a pixel or wrong scale factors leave shapes and smooth
     looking pixels, and tests compare mostly shapes.''',
     [('warp', N + ' DelayedWarp._finalize'), ('fused warps', N + ' _opt_fuse_warps'),
      ('crop under warp', N + ' DelayedCrop._opt_warp_after_crop'),
      ('warp as overview', N + ' _opt_split_warp_overview, _opt_absorb_overview')],
     '''Coordinate ramps as data, so each pixel tells where it came from;
     tolerance 0.04 px per linear resampling, wider where antialiasing or
     overviews were involved; pixels near a canvas border are not judged.''')
prop('C05', 'A warp delivers interpolated source pixels however it is combined',
     '''One linear warp without antialiasing, placed anywhere among crops, channel
     selections, concatenations and dequantizations, delivers in every interior
     pixel the bilinear interpolation of the source at the mapped position, both
     optimized and not.''',
     ['programs', 'inputs'], '''every such composition, affine transform, data type
     and canvas size''',
     FEW + '''optimization moves crops below warps by computing new regions and
     residual transforms, which only particular fractional offsets get wrong.''',
     [('crop under warp', N + ' DelayedCrop._opt_warp_after_crop'),
      ('dequantize order', N + ' _opt_dequant_before_other')],
     '''Noise images against an independent bilinear interpolation; tolerance is
     the 1/32 px steps OpenCV interpolates with.''')
prop('C06', 'Overviews deliver the stored pixels, or every 2^n-th pixel',
     '''An overview of a file delivers exactly the pixels of the overview stored in
     it, and if there is none, every 2^n-th pixel of the full image, rounding odd
     sizes up. Overviews of overviews add up, the number that is left is announced,
     and later crops, selections and dequantizations act on those pixels.''',
     ['programs', 'inputs'], '''every file with any number of stored overviews, of
     odd and even sizes, any chain of overviews and other operations''',
     '''The tests' files have no odd sized overviews, and always enough levels.''',
     [('overviews', N + ' DelayedOverview._finalize, _opt_fuse_overview'),
      ('crop under overview', N + ' _opt_crop_after_overview'),
      ('stored overviews', Z + ' LazyGDalFrameFile.get_overview')],
     '''Exact comparison with overviews read by GDAL alone. Levels beyond the
     stored ones on top of a stored one are only judged unoptimized.''')
prop('C07', 'Using an image never changes it or anything it shares',
     '''Whatever was done with the nodes of a graph before (finalizing, optimizing,
     undoing warps, deriving new images, introspection), using any of its nodes
     gives the same as on a fresh copy of the graph. It makes no difference whether
     parts are shared between branches.''',
     ['histories', 'programs'], '''every sequence of uses of any nodes of every graph
     with shared parts''',
     '''Tests use a graph once or twice in one order; aliasing between an optimized
     and an original graph shows only later, in another node.''',
     [('copies before rewriting', N + ' *.optimize'),
      ('memo per optimization', B + ' OptimizeContext')],
     '''Random histories compared with fresh unshared copies, exactly. Leafs are
     prepared first, since preparing one in place is documented.''')
prop('C17', 'A channel spec round-trips through its concise and expanded forms',
     '''Parsing, normalizing, making concise and formatting a channel specification
     never change which channels it names or their order, and each form parses
     back to an equal specification.''',
     ['inputs'], '''every specification text: aliases, slice codes, spaces, several
     streams, empty ones''',
     'Doctests show a dozen texts.',
     [('parsing', C + ' FusedChannelSpec.parse, normalize, concise')],
     'Random specifications against an independent list model.')
prop('C18', 'Channel set operations agree with ordered sets of channel names',
     '''Union, intersection, difference, containment, subset tests, equality and
     length of channel specifications agree with the same operations on the ordered
     lists of channel names they stand for, whichever way operands are written.''',
     ['inputs'], 'every pair of specifications, as objects or texts',
     'Doctests show one or two pairs per operation.',
     [('set operations', C + ' FusedChannelSpec / ChannelSpec operators')],
     'Random pairs against an independent ordered-set model.')
prop('C19', 'Channel encode and decode address the right bands of arrays',
     '''Component slices and indices of a channel specification partition a stacked
     array exactly by channel, and encoding then decoding named components gives
     them back unchanged.''',
     ['inputs'], 'every specification with aliases and slice codes, and array layout',
     'Doctests show single examples.',
     [('slices', C + ' component_indices, sizes'), ('encode', C + ' ChannelSpec.encode, decode')],
     'Random specifications and arrays, exact.')
prop('C20', 'Sensor-channel specs expand, combine and print the right pairs',
     '''A sensor/channel specification stands for a fixed set of (sensor, channels)
     streams; normalizing, making concise, splitting, adding, fusing late and
     printing keep exactly that set, and what is printed parses back to it.''',
     ['inputs'], '''every expression of the sensor/channel grammar''',
     'Doctests show a dozen expressions; the grammar nests.',
     [('grammar', S + ' sensorchan_normalized_parts, SensorChanSpec')],
     '''Random expressions against an independent expansion; an expression in
     parentheses without any sensor is ambiguous and not judged.''')

LATER = {}


def main():
    import sys
    sys.path.insert(0, HERE)
    try:
        from tools import more_props
        more_props.add(prop, LATER, N, L, Z, C, S, B, H, GRAPHS, FEW)
    except ImportError:
        pass
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': sorted(set(w.split()[0] for _, w in p['mech'])),
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': ['public API'], 'hook_needed': None},
            }) + '\n')
            assert len(p['title']) <= 80, p['title']
    checks = []
    missing = []
    for p in P:
        if not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
            missing.append({'property': p['id'], 'reason': 'check not built yet'})
            continue
        cmd = '/opt/venv/bin/python run.py ' + p['id']
        checks.append({
            'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd,
            'technique': 'property-based testing (Hypothesis, generated programs '
                         'or inputs, shrinking) against an explicit oracle',
            'level': 'exploration', 'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': '/opt/venv/bin/python setup_check.py',
                   'checks': checks, 'not_applicable': missing}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

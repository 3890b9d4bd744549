"""Further property definitions (see mkdocs.py)."""


def add(prop, LATER, N, L, Z, C, S, B, H, GRAPHS, FEW):
    prop('C08', 'Selecting channels delivers exactly those channels, in that order',
         '''Selecting channels of any image by names (spelled out, as slice codes,
         aliases or spec objects), by indexes or by slices announces and delivers
         exactly the selected channels in the requested order, duplicates included,
         out of whichever parts hold them. An unknown name is refused, or with
         missing_channel_policy='return_nan' delivered as nan under that name.''',
         ['programs', 'inputs'], '''every selection from every graph with any number
         of concatenated parts''',
         FEW + '''which part a channel comes from, and whether neighbouring ones merge
         into one selection, depends on the whole layout.''',
         [('selection', N + ' DelayedChannelConcat.take_channels, DelayedImage.take_channels'),
          ('name lookup', C + ' ChannelSpec')],
         '''Random layouts and selections against lists of channel numbers, exact.''')
    prop('C10', 'A crop delivers its region, and padding where it leaves the image',
         '''Chains of crops in any index spelling (negative, missing or open ends,
         clipped, wrapping off, padded, with or without channel indexes) deliver exactly the
         region that they index; where a padded crop leaves the image it delivers no
         data, and pixels cropped away before do not come back.''',
         ['programs', 'inputs'], '''every chain of crops and padded crops, with channel
         selections, overviews and copies in between''',
         FEW + '''which indexes leave the image, and what an optimized chain of paddings
         and crops merges to, depends on every offset of the chain.''',
         [('padded crop', N + ' ImageOpsMixin._padded_crop'),
          ('crop fusion', N + ' DelayedCrop._opt_fuse_crops'),
          ('crop below shifts', N + ' DelayedCrop._opt_warp_after_crop')],
         '''Random chains against NumPy indexing of a padded array, exact; the value of
         padded pixels of integer data is only judged where it is defined.''')
    prop('C11', 'Quantized values come back within a step, and nodata as nan',
         '''Dequantizing applies exactly the affine map of its parameters in the data
         type they name and delivers nan exactly where the data equals nodata.
         quantize_float01 followed by dequantize gives each value back, clipped to
         its range, within one quantization step, keeps order, and keeps nan, for
         every integer type. Inputs are not changed; crops around it commute.''',
         ['inputs'], 'every data type, range, nodata value and array',
         'Doctests print errors without checking them.',
         [('helpers', H + ' quantize_float01, dequantize'),
          ('node', N + ' DelayedDequantize._finalize')],
         'Random arrays and parameters against float64 arithmetic.')
    prop('C12', 'Nodata of files is delivered as no data, all else unchanged',
         '''Loading a file with nodata_method delivers exactly those pixels of each band
         that equal the band's nodata value as no data (nan, or masked), and every other
         pixel with its value and type; this survives every operation that
         does not blend pixels. Without nodata_method all values are delivered as stored.''',
         ['programs', 'inputs'], '''every file of every type, one, no or differing
         nodata values per band, with crops, selections, concatenations, overviews,
         nearest enlargements, dequantization and xarray''',
         '''Tests load two files with nodata, unoptimized, one band.''',
         [('reads', Z + ' LazyGDalFrameFile.__getitem__'),
          ('leaf', L + ' DelayedLoad'),
          ('masks', N + ' DelayedWarp._finalize, DelayedChannelConcat._finalize')],
         'Random files written with GDAL against the arrays written, exact.')
    prop('C09', 'An operation on a concatenation is that operation on each part',
         '''Cropping, padding, warping, resizing, dequantizing or taking an overview of a
         concatenation, nested or not, announces and delivers the channels of the same
         operations applied to every part on its own, side by side in the order of the
         parts, optimized anywhere along the way or not.''',
         ['programs', 'inputs'], '''every tree of concatenations of parts with histories
         of their own, and every chain of operations on it''',
         FEW + '''operations move below concatenations into parts of different kinds
         and histories, which no test combines.''',
         [('push below', N + ' DelayedChannelConcat.optimize, _opt_push_under_concat'),
          ('delivery', N + ' DelayedChannelConcat._finalize')],
         '''Metamorphic: the whole against its parts. Enlargements that may undo an
         overview are compared in shape and names only.''')
    prop('C13', 'Reading a region of a file equals slicing the whole image',
         '''Any region, band selection and overview level of a raster file read lazily, in
         any spelling of the index, equals the same NumPy slice of all that the file holds,
         in value and type, for every reader, format, layout and data type; the same
         reader gives the same answer again.''',
         ['inputs', 'histories'], '''files of all data types, band counts, interleavings,
         tilings, compressions and overviews; every sequence of reads from one reader''',
         'Doctests read a few fixed regions of the demo images.',
         [('GDAL', Z + ' LazyGDalFrameFile'),
          ('rasterio', Z + ' LazyRasterIOFrameFile'),
          ('ENVI', Z + ' LazySpectralFrameFile'),
          ('leaf', L + ' DelayedLoad')],
         '''Files written and read whole with GDAL alone; GeoTIFF, ENVI and PNG.''')
    prop('C14', 'Undoing warps gives each part in the space its transform says',
         '''undo_warp(s) of any image or concatenation, with any components removed or
         retained, gives pieces whose size, returned warp, transform from the leaf, names
         and pixels are those of the inverse transform (or of its named components), and
         with squash_nans one pixel for each part without data.''',
         ['programs', 'inputs'], '''every concatenation of parts with transforms of their
         own and operations on the whole, every mode of undoing''',
         FEW + '''the doctests undo two chains and check sizes.''',
         [('undo', N + ' DelayedImage.undo_warp, DelayedChannelConcat.undo_warps'),
          ('components', H + ' _ensure_valid_dsize')],
         '''Against matrix algebra on the program and exact ramps in the interior
         of each piece; pieces that show none of the source are not judged.''')
    prop('C15', 'Announced transforms are the composition of the operations',
         '''The transform an image announces from its leaf, and between any two images
         that share a leaf, is the product of the matrices its operations imply, and
         optimizing keeps it.''',
         ['programs', 'inputs'], GRAPHS + ', every pair of their nodes',
         FEW + '''transforms are asserted for two fixed chains.''',
         [('transforms', N + ' get_transform_from_leaf, get_transform_from'),
          ('per node', N + ' _transform_from_child')],
         '''Against 3x3 products; only images that show a part of the source, and no
         canvas sizes on rounding edges.''')
    prop('C22', 'Parts without data stay without data, announced as asked',
         '''Images without data (nans and nodata leafs) announce the size and channels
         they were made with and deliver no data, nan or masked, of exactly that shape,
         through every chain of operations, alone or beside parts with data.''',
         ['programs', 'inputs'], GRAPHS.replace('empty parts', 'parts without data'),
         FEW + '''empty parts are replaced by new ones when optimized, which
         must recompute size and names for each operation.''',
         [('leafs', L + ' DelayedNans, DelayedNodata'),
          ('shortcuts', N + ' DelayedCrop.optimize, DelayedWarp.optimize')],
         '''Random graphs of which some parts have no data, against the shape model.''')
    prop('C16', 'The parameters of a warp are honored, optimized or not',
         '''The interpolation, antialiasing and border value (one, or one per channel) asked
         for in a warp, resize or scale decide its pixels: linear and cubic values are those of
         that kernel, antialiased reductions are blurred first, nearest ones never, and
         pixels outside of the source take the border value of their channel, also when
         the warp is cropped, reordered, concatenated, copied or overviewed and optimized.''',
         ['programs', 'inputs'], '''every set of parameters, data type and channel
         count, with every chain of crops, selections and concatenations around it''',
         FEW + '''parameters must survive every rewriting of the graph, and border values
         must follow their channels.''',
         [('warp', N + ' DelayedWarp._finalize'),
          ('rewrites', N + ' DelayedWarp.optimize, DelayedCrop._opt_warp_after_crop, '
           '_opt_push_under_concat')],
         '''Linear against a NumPy bilinear model, others against direct resampling
         of the whole source; one warp per program (fused ones keep the outermost
         parameters), cubic up to 4 channels.''')
    prop('C23', 'A nearest warp delivers the source pixel under each pixel center',
         '''Nearest resampling moves values and never blends them: each delivered pixel is
         exactly the source pixel that its center maps to (for a resize to the full canvas, one
         that it covers), and a pixel outside of the source is exactly the border value,
         for every transform, data type, canvas size, part and copy, optimized or not.''',
         ['programs', 'inputs'], '''every affine transform, canvas, data type and channel
         count, with crops, selections and concatenations around it''',
         '''Tests check a few whole-number enlargements; three separate code paths
         serve shifts, resizes and general transforms.''',
         [('fast paths', N + ' DelayedWarp._finalize'),
          ('residuals', N + ' DelayedWarp._opt_split_warp_overview')],
         '''Exact against floor of the inverse transform of the pixel center; pixels within
         .07 of a source pixel edge are not judged.''')
    prop('C21', 'The reader cache is a bounded LRU and never changes what is read',
         '''CacheDict never holds more than its limit and always evicts the entry
         that was set or looked up longest ago, after every history of operations; reads of any
         files in any order give the same pixels with the dataset cache of any size and
         without it.''',
         ['histories', 'inputs'], '''every history of sets, lookups, deletions and updates;
         every interleaving of reads of several files''',
         'One doctest sets four keys.',
         [('cache', Z + ' CacheDict'),
          ('readers', Z + ' LazyGDalFrameFile._reload_cache, GLOBAL_GDAL_CACHE')],
         '''Model based against a list; whether get() counts as a use is not judged.''')
    prop('C24', 'Reading metadata late, early or again changes nothing delivered',
         '''An image over files whose size, channels or number of overviews are not given,
         or only some of them, delivers the same shape, names and pixels as over files
         prepared first, whenever its operations can be built without reading; prepare
         reads the true metadata, and repeating it changes nothing.''',
         ['programs', 'histories'], '''every graph over files, every subset of metadata
         given up front, prepared before, while or after building, or twice''',
         FEW + '''nearly all of them prepare the leafs first.''',
         [('metadata', L + ' DelayedLoad._load_metadata, prepare'),
          ('propagation', N + ' DelayedChannelConcat.prepare'),
          ('finalize', B + ' DelayedOperation.finalize, prepare')],
         '''Differential against the graph over prepared files. Graphs that cannot be built
         without the metadata are not judged.''')
    prop('C25', 'The views of a graph show exactly its nodes and connections',
         '''nesting, as_graph, leafs and the printed text of any image show every
         node of its graph once per use, with its type and parameters, below the node
         that uses it and in order, and showing changes nothing. The network text of any graph
         contains each node once and parses back to that graph.''',
         ['programs', 'inputs'], GRAPHS + '; every directed or undirected graph',
         'Doctests print views and check none of them.',
         [('views', B + ' nesting, as_graph, leafs, _traversed_graph'),
          ('text', 'delayed_image/util/util_network_text.py generate_network_text, '
           'parse_network_text')],
         '''Against a walk over subdata and parts, and against networkx's own
         network text.''')
    prop('C26', 'Parameters given to finalize apply to all that it evaluates',
         '''finalize(interpolation, antialias, border_value or nodata_method) delivers what
         the same graph made with these parameters delivers, in every operation, part and
         file, optimized or not, and again for each later finalize.''',
         ['programs', 'histories'], GRAPHS + ', every sequence of parameters',
         FEW + '''parameters are overridden in place, for one or two warps.''',
         [('override', B + ' DelayedOperation.finalize, _set_nested_params'),
          ('reads', L + ' DelayedLoad._finalize, DelayedNodata')],
         '''Differential against the graph built with the parameters; without
         paddings and copies, which evaluate on their own.''')
    prop('C27', 'Shrinking warps read the stored overview that fits their scale',
         '''An image that is shrunk below what a stored overview of its file holds
         is, once optimized, delivered from an overview, and never from one coarser than the
         scale of the composed operations, whatever the other axis, rotations, mirroring,
         crops, paddings, copies or other parts do; without optimization no
         overview but the requested one is read.''',
         ['programs', 'inputs'], '''every graph over files with stored overviews (in bands,
         sidecars or other formats) and every composed scale''',
         FEW + '''smooth demo images look alike at all levels, so which level was read
         is not visible in them.''',
         [('splitting', N + ' _opt_split_warp_overview, _prepare_scale_residual'),
          ('order of overviews', N + ' DelayedCrop._opt_crop_after_overview'),
          ('reads', Z + ' LazyGDalFrameFile.get_overview')],
         '''Each stored level of the files holds its own number, so pixels tell which
         level they came from. A warp that enlarges above an explicit overview is not
         judged.''')
    prop('C28', 'A crop of a file reads little more than the region it shows',
         '''Delivering an optimized crop reads from each file only the region that the crop
         maps to, with a margin of a few pixels of the resampling, and only the selected
         bands, through every chain of crops, selections, warps, overviews and
         concatenations.''',
         ['programs', 'inputs'], '''every chain of crops, selections and affine warps over
         raster files''',
         FEW + '''they look at the values of a crop, which do not tell how much
         was read for it.''',
         [('crop under warp', N + ' DelayedCrop._opt_warp_after_crop, _swap_warp_after_crop'),
          ('crop fusion', N + ' DelayedCrop._opt_fuse_crops'),
          ('file reads', Z + ' LazyGDalFrameFile.__getitem__')],
         '''Pixels counted at the raster library against the inverse image of the
         crop; nearest warps, which keep crops above them, are charged in full.''')
    prop('C29', 'Every spelling of an operation means the same',
         '''An operation gives the same image however it is said: slices that are open, count from
         the end, reach beyond the image or hold NumPy integers, crops by index, keyword or node, selections by
         name or index, warps by parameters, matrix, scale or resize, lazily or not, interpolations by name or
         code, arrays with any memory layout, paths of any kind; an operation that does nothing changes
         nothing.''',
         ['programs', 'inputs'], '''every program of operations, each said in every documented way, with
         operations that do nothing anywhere''',
         FEW + '''most of them say an operation in one way only.''',
         [('crop arguments', N + ' ImageOpsMixin.crop, __getitem__, DelayedCrop'),
          ('warp arguments', N + ' ImageOpsMixin.warp, scale, resize, DelayedWarp'),
          ('channel arguments', N + ' take_channels, _rectify_chan_idxs'),
          ('leafs', L + ' DelayedIdentity, DelayedNans, DelayedLoad')],
         '''Whether a step that does nothing keeps the optimized rewrites of warps around it is not
         judged; undocumented types of arguments are not generated.''')
    prop('C30', 'A read that fails is reported, and never becomes pixels',
         '''When a file is missing, cut short, emptied or replaced, or when any single call into the
         raster library fails while an image is built or delivered, the delivery either raises an error or
         delivers exactly the right pixels. No failure outlasts its cause: once the file can be read again,
         the same image and new ones deliver the right pixels.''',
         ['programs', 'inputs', 'fault_sequences'], '''every graph over raster files, every read that can
         fail, every way in which it can, before and after the graph is built''',
         FEW + '''none of them makes a read fail.''',
         [('file opening', Z + ' LazyGDalFrameFile._reload_cache, _ds'),
          ('reads', Z + ' LazyGDalFrameFile._compat_gdal_read, _gdal_read_kwimage_compatible'),
          ('leaf state', L + ' DelayedLoad._load_metadata, _load_reference')],
         '''Faults are injected at gdal.Open and the ReadAsArray methods, or by damaging copies of the
         files, with the exceptions of GDAL on and off; damage that still is a valid file is not judged.''')
    prop('C31', 'An optimized chain of warps and crops resamples the image once',
         '''Optimized, a chain of linear warps without antialiasing, with crops, channel selections,
         concatenations and a dequantization anywhere in between, delivers in every pixel inside all canvases the
         bilinear interpolation of the source at the position mapped by the composed transform, as if there were
         one warp. Quantized data is dequantized before it is interpolated: a pixel is no data exactly if it
         touches source pixels that are, and nodata values are never mixed into others.''',
         ['programs', 'inputs'], '''every chain of several affine warps and other operations over arrays and files
         of every data type, with and without nodata''',
         FEW + '''their images are smooth, so resampling twice hardly shows.''',
         [('fusing', N + ' DelayedWarp._opt_fuse_warps'),
          ('order of dequantization', N + ' DelayedDequantize._opt_dequant_before_other'),
          ('crop under warp', N + ' DelayedCrop._opt_warp_after_crop'),
          ('below concatenations', N + ' DelayedImage._opt_push_under_concat')],
         '''Noise images; 8 % of the range is tolerated for the 1/32 pixel steps of
         OpenCV. Pixels within 0.07 px of touching a nodata pixel may be either.''')
    prop('C32', 'Images are delivered the same where GDAL is missing',
         '''Where the GDAL bindings cannot be imported, every graph over ordinary image files (8 bit, one or three
         bands, no stored overviews) announces and delivers the same size, channels, data type and
         pixels as where they can, optimized or not.''',
         ['programs', 'configurations'], '''every graph of every operation over such files, with and without
         metadata given ahead''',
         '''The test environment has GDAL, so the other branch of every leaf never runs.''',
         [('leaf without a lazy reader', L + ' DelayedLoad._load_reference, _load_metadata, _finalize'),
          ('availability', Z + ' LazyGDalFrameFile.available')],
         '''The absence is simulated by having the package find no GDAL; kwimage, which then reads the
         files, still has it. Files that need it (other bands and types, nodata, overviews) are not judged.''')

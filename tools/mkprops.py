import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])])))

p("C01","No file content can crash or hang the library",
"For every sequence of bytes, opened with or without a file type hint, opening it and asking for anything the API offers (type, camera, thumbnails, metadata, raw data with and without decompression, rendering, dump) ends with a result or an error. It never panics, aborts the process, overflows the stack or loops forever.",
["inputs","histories"],"every byte string (well formed, truncated, with any field set to any value, with any part replaced), each of the type hints, each query",
"The tests open a couple of tiny synthetic blobs; a damaged field in one of fifteen formats is an input they never produce, and no RAW sample is in the tree.",
["src/rawfile.rs","src/container.rs","src/io.rs","src/tiff/container.rs","src/tiff/dir.rs","src/tiff/entry.rs","src/jpeg/container.rs","src/mp4/container.rs","src/canon/crw/ciff.rs","src/fujifilm/raf.rs","src/minolta.rs","src/decompress/ljpeg.rs","src/nikon.rs","src/pentax/decompress.rs","src/panasonic/decompress.rs","src/olympus/decompress.rs","src/fujifilm/decompress.rs"],
[("views bound each container to its own part of the file","src/io.rs"),("entry count and offset checks","src/tiff/entry.rs")],
["rawfile_from_memory / rawfile_from_file and every method of the returned handle"])

p("C02","Results are a function of the file's bytes alone",
"Every result obtained from a file depends only on its bytes and on the type it was opened as: asking again, asking in another order, opening it again, or reading it from a file, from memory or through a stream gives the same answer. No result ever contains memory contents that do not come from the file.",
["inputs","histories"],"every file (well formed or damaged), every sequence of queries on one handle, each way of opening",
"Unit tests make one query per object; cached lazily-loaded state, a shared stream position and reused memory only show over sequences of queries and with damaged or short data.",
["src/rawfile.rs","src/io.rs","src/container.rs","src/tiff/container.rs","src/mp4/container.rs","src/fujifilm/raf.rs","src/canon/crw.rs"],
[("each view seeks before reading the shared stream","src/io.rs"),("lazy cells initialised once","src/tiff/container.rs"),("load_buffer8 / load_buffer16","src/container.rs")],
["every method of the handle, compared between two histories"],
[("stream position","shared by all views of one file","src/io.rs Viewer"),("once cells","lazily loaded directories, thumbnails, probes","src/*.rs")])

p("C03","A file is recognised as the type its content or name says",
"A file without a type hint is recognised from its content when its leading bytes carry a supported format's signature, and for a named file from its extension regardless of case; anything else is refused as unrecognised, and a buffer too short to hold a signature is refused. An explicit type hint always wins, each supported type reports its own type and MIME type (GPR, NRW, RW and SR2, which are variants, report those of DNG, NEF, RW2 and ARW), and every advertised extension and MIME type leads back to a type that can be opened.",
["inputs"],"every leading byte pattern, every file name and extension case, every type hint",
"The tests try a few names and no complete files; the dispatch over signatures, TIFF make strings, hints and MIME tables is a product they do not cover.",
["src/identify.rs","src/rawfile.rs","src/factory.rs","src/lib.rs"],
[("type_for_content","src/identify.rs"),("EXT_TO_TYPE / MIME tables","src/identify.rs"),("get_rawfile_factory","src/factory.rs")],
["rawfile_from_memory(..).type_(), mime_type()","extensions()","mime_types()","type_for_mime_type()"])

p("C04","Asking for a preview size returns the right preview",
"For every requested size above zero, a file that has previews returns one of the sizes it lists: the exact size if listed, otherwise the smallest larger one, otherwise the largest. Size zero is refused as an invalid parameter and a file without previews answers not found.",
["inputs","histories"],"every set of embedded previews, every requested size from 1 to the maximum",
"The only test has one fixed list of three sizes and stubs out the extraction.",
["src/rawfile.rs","src/tiff/container.rs","src/tiff/dir.rs"],
[("thumbnail(size) selection loop","src/rawfile.rs"),("per-format preview collection","src/tiff/dir.rs get_thumbnails")],
["RawFile::thumbnail_sizes, RawFile::thumbnail"])

p("C05","Embedded previews are returned byte for byte",
"Every preview embedded in a supported container is listed with its larger dimension as its size, and extracting it yields the width and height the file states (or its format's nominal ones where the file states none), its kind (JPEG or 8-bit RGB) and exactly the bytes stored in the file for it. This holds wherever the preview lives: any directory, a sub directory, a maker note, a JPEG's EXIF block, a vendor heap or header, or a movie-style box.",
["inputs"],"every layout of directories, offsets, byte orders and preview dimensions in each of the supported formats",
"No sample file with previews is in the tree, so the tests never extract one.",
["src/tiff/dir.rs","src/tiff/container.rs","src/container.rs","src/jpeg/container.rs","src/minolta.rs","src/canon/crw.rs","src/canon/cr3.rs","src/fujifilm.rs","src/panasonic.rs","src/epson.rs","src/olympus.rs","src/nikon.rs","src/pentax.rs","src/sony.rs"],
[("make_thumbnail","src/container.rs"),("get_thumbnails / get_thumbnail","src/tiff/dir.rs"),("per-format thumbnails()","src/<vendor>.rs")],
["RawFile::thumbnail(size)"])

p("C06","Metadata values are what the file stores",
"For every TIFF-style directory, in either byte order, every entry is reported with its type and count, and its value (integers, rationals, floats, text, bytes, arrays) equals what the file stores, whether it is held inline or at an offset. Re-encoding the same directory in the other byte order, or placing its data elsewhere in the file, changes no value.",
["inputs"],"every directory content: tag, type, count, value, inline or out of line, both byte orders, any placement of data",
"Unit tests parse a handful of hand-written entries of a few types, in one byte order each.",
["src/tiff/entry.rs","src/tiff/dir.rs","src/tiff/exif.rs","src/metadata.rs"],
[("Entry::load_data, value_array, typed readers","src/tiff/entry.rs"),("metadata::Value conversion","src/metadata.rs")],
["RawFile::metadata()","RawFile::metadata_value()","main_ifd().entry/uint_value/value"])

p("C07","Metadata enumeration is complete and well named",
"Enumerating a TIFF-based file's metadata yields every entry of the primary directory and of those chained to it exactly once, in order, under its standard name qualified by the directory it came from. Directories reached through an entry (EXIF, GPS, maker note, sub directories) are given by their accessors and each listed once, with its own tag names, in the dump. For every file, the dump closes what it opens, in reverse order and under the same name, and the tables of a Fujifilm file and the blocks of a Minolta one are listed with their places and values. Looking a key of the primary directory up by name gives the enumerated value, and the orientation is the stored one.",
["inputs","histories"],"every directory tree (chains, sub directories, EXIF, maker notes) and content",
"The tests walk one or two fixed directories; completeness and naming over arbitrary trees are not asked.",
["src/metadata.rs","src/tiff/iterator.rs","src/tiff/container.rs","src/tiff/dir.rs","src/tiff/exif/generated.rs","src/rawfile.rs"],
[("Iterator over directories then entries","src/tiff/iterator.rs, src/metadata.rs"),("tag name tables","src/tiff/exif/generated.rs")],
["RawFile::metadata()","RawFile::metadata_value()","RawFile::orientation()"])

p("C08","Uncompressed sensor data keeps every sample",
"For every image width and height and every supported packing (8, 10, 12, 14 or 16 bits, either byte order, the padded vendor variants, one or several strips), decoded raw data holds exactly the packed samples, in order, with the true dimensions. Data shorter than the image is an error or a short image, never invented samples.",
["inputs"],"every dimension, sample value, packing, strip layout and byte order",
"The unit tests unpack one or two fixed byte strings of a single row.",
["src/decompress.rs","src/decompress/bit_reader.rs","src/container.rs","src/tiff/container.rs","src/tiff/dir.rs","src/olympus.rs","src/panasonic.rs","src/nikon.rs","src/minolta.rs","src/fujifilm.rs","src/epson.rs"],
[("unpack_be*to16 / unpack_le*to16 / unpack_from_reader","src/decompress.rs"),("bit readers","src/decompress/bit_reader.rs"),("strip assembly","src/tiff/container.rs")],
["RawFile::raw_data(false)"])

p("C09","Lossless JPEG raw data decodes exactly",
"For every image encoded as lossless JPEG (any of the seven predictors, any precision from 8 to 16 bits, one to four interleaved components, any valid Huffman table), decoding gives back exactly the encoded samples and geometry. This holds for a bare stream, for a DNG strip or tiles, and for Canon's vertical slices.",
["inputs"],"every image content, geometry, predictor, precision, component count, Huffman code, slice and tile layout",
"One fixed stream is decoded in the tests and compared to a stored checksum.",
["src/decompress/ljpeg.rs","src/decompress/tiled.rs","src/decompress.rs","src/canon/cr2.rs","src/dng.rs"],
[("LJpeg decoder","src/decompress/ljpeg.rs"),("tile assembly","src/decompress/tiled.rs"),("slices","src/decompress/ljpeg.rs set_slices")],
["LJpeg::decompress_buffer","RawFile::raw_data(false) on DNG and CR2"])

p("C10","Olympus compressed raw data decodes exactly",
"For every 12-bit image, its Olympus-compressed encoding decodes to exactly the encoded samples, and the size of the stored data alone decides between compressed, packed and plain storage.",
["inputs"],"every image content and geometry that the encoding can express","A single fixed buffer checked against a stored result at most; no file-level test.",
["src/olympus/decompress.rs","src/olympus.rs"],[("decompress_olympus","src/olympus/decompress.rs"),("load_rawdata size dispatch","src/olympus.rs")],["RawFile::raw_data(false) on ORF","decompress_olympus"])

p("C11","Pentax compressed raw data decodes exactly",
"For every image, its Pentax Huffman encoding decodes to exactly the encoded samples, with the file's own code table when it carries one and with the built-in table when it does not.",
["inputs"],"every image content, geometry and code table","No test decodes Pentax data.",
["src/pentax/decompress.rs","src/pentax.rs"],[("decompress","src/pentax/decompress.rs")],["RawFile::raw_data(false) on PEF"])

p("C12","Nikon compressed raw data decodes exactly",
"For every image, its Nikon Huffman encoding decodes to exactly the encoded samples mapped through the linearization curve stored in the maker note, for the 12 and 14 bit, lossless and lossy code tables. The last column, which the library leaves out on purpose, is not part of the result.",
["inputs"],"every image content, geometry, starting predictors, curve and code table","Tests cover the curve on one fixed buffer; no image is decoded.",
["src/nikon.rs","src/nikon/diffiterator.rs","src/nikon/huffman.rs"],[("load_rawdata / unpack_nikon_quantized","src/nikon.rs"),("DiffIterator","src/nikon/diffiterator.rs")],["RawFile::raw_data(false) on NEF"])

p("C13","Panasonic compressed raw data decodes exactly",
"For every sensor image the block code can express, Panasonic compressed data decodes to the samples an independent decoder of the published format gives, including across the boundaries of the rotated 16 KiB buffers.",
["inputs"],"every block content and geometry","No test decodes Panasonic data.",
["src/panasonic/decompress.rs","src/panasonic.rs","src/decompress/sliced_buffer.rs"],[("panasonic_raw1","src/panasonic/decompress.rs"),("SlicedBuffer","src/decompress/sliced_buffer.rs")],["RawFile::raw_data(false) on RW2"])

p("C14","Canon CRW compressed raw data decodes exactly",
"For every 10-bit image, or 12-bit image whose two low bits are in the separate plane, and each of the three decoder tables, the Canon CIFF-era compressed encoding decodes to exactly the encoded samples, with rows of the sensor's width.",
["inputs"],"every image content, geometry, decoder table and low-bit plane","No test decodes CRW data.",
["src/canon/crw/decompress.rs","src/canon/crw.rs","src/canon/crw/ciff.rs"],[("Decompress","src/canon/crw/decompress.rs")],["RawFile::raw_data(false) on CRW"])

p("C15","Fujifilm compressed raw data decodes exactly",
"For every Bayer or X-Trans image, its Fujifilm lossless compressed encoding decodes to exactly the encoded samples, strip by strip across the full width.",
["inputs"],"every image content, geometry, bit depth, Bayer and X-Trans","No test decodes Fujifilm data.",
["src/fujifilm/decompress.rs","src/fujifilm.rs"],[("decompress_fuji","src/fujifilm/decompress.rs")],["RawFile::raw_data(false) on RAF"])

p("C16","The raw image is described as the file describes it",
"For every supported format, the raw image's dimensions, bits per sample, storage kind, mosaic pattern, active area, user crop, aspect ratio, black and white levels and as-shot white balance are those recorded in the file's metadata where the format records them, or the per-camera or format default when the file has none. Crop rectangles and levels are per the file even when values are unusual.",
["inputs"],"every value of the describing metadata in each format and camera model","No raw file is parsed by the tests.",
["src/dng.rs","src/canon.rs","src/canon/cr2.rs","src/canon/cr3.rs","src/canon/crw.rs","src/nikon.rs","src/olympus.rs","src/panasonic.rs","src/pentax.rs","src/sony.rs","src/fujifilm.rs","src/minolta.rs","src/epson.rs","src/tiff/container.rs","src/mosaic.rs"],
[("load_rawdata of each format","src/<vendor>.rs")],["RawFile::raw_data and the RawImage getters"])

p("C17","Camera identity and colour matrices follow the file",
"A file's camera is identified from the make, model or model number it records, and unknown cameras are reported as such and not as another camera. Colour matrices and calibration illuminants are the ones the file provides, element for element, otherwise the built-in one of exactly that camera as the first matrix with illuminant D65, otherwise not found.",
["inputs"],"every camera model known to the library and every unknown one, every provided matrix, both indices",
"Tests do not go from a file to its camera or matrix.",
["src/camera_ids.rs","src/rawfile.rs","src/colour/matrix.rs","src/tiff.rs","src/canon/matrices.rs","src/nikon/matrices.rs","src/olympus/matrices.rs","src/fujifilm/matrices.rs","src/sony.rs","src/panasonic.rs","src/pentax.rs","src/epson.rs","src/minolta.rs","src/leica.rs"],
[("identify_with_exif tables","src/tiff.rs, src/<vendor>.rs"),("colour_matrix","src/rawfile.rs")],["type_id(), vendor_id(), colour_matrix(i), calibration_illuminant(i)"])

p("C18","Rendering applies exactly the requested stages",
"For every raw image and rendering options, the rendered image equals the documented pipeline: the raw stage and other stages or targets that are not implemented are refused as such, linearization looks samples up in the linearization table if there is one, subtracts the black level and scales what is left to the full range without wrapping (by the levels of the first component; levels that leave no range are refused), interpolation turns the mosaic into RGB of the stated size, and colour conversion applies the camera's D65 matrix and the target space with its gamma. Sizes, bit depth, component count and storage kind of the result always agree with each other.",
["inputs","configurations"],"every geometry, mosaic pattern, level and sample value, each stage and target colour space",
"Tests render nothing end to end; demosaicing is checked on one tiny fixed matrix.",
["src/rawimage.rs","src/render.rs","src/render/demosaic.rs","src/render/grayscale.rs","src/colour.rs"],
[("rendered_image pipeline","src/rawimage.rs"),("bimedian_to_rgb","src/render/demosaic.rs")],["RawImage::rendered_image"])

p("C19","Crops fit and keep the requested proportions",
"Cropping a size or rectangle to an aspect ratio gives an area that lies inside the original, is centred, keeps one full dimension and has the requested proportion up to rounding.",
["inputs"],"every size, position and ratio (portrait, landscape, square, equal to the original)","The tests check a few sizes of common cameras.",
["src/geometry.rs"],[("AspectRatio::crop, crop_into","src/geometry.rs")],["AspectRatio::crop / crop_into, user_crop of files with an aspect ratio"])

p("C20","The C interface reports exactly what the Rust interface reports",
"For every file, each C function returns the same value as the corresponding Rust query, with success or the documented error code, and fills only the buffers it is given. Null handles and null out pointers are answered with an error or a null result, text results are NUL terminated, and every object can be released once whatever order objects are released in.",
["inputs","histories"],"every file, every C entry point, every sequence of obtain, read and release calls, null arguments, all buffer sizes",
"The C tests make a few calls without a file.",
["src/capi.rs","src/capi/rawfile.rs","src/capi/rawdata.rs","src/capi/thumbnail.rs","src/capi/bitmap.rs","src/capi/metavalue.rs","src/capi/iterator.rs","src/capi/ifd.rs","src/capi/mime.rs","src/capi/mosaic.rs"],
[("or_* functions","src/capi/*.rs")],["the or_* functions, called as C would"])

p("C21","Values are found wherever nested containers place them",
"For every arrangement of records, blocks or boxes a vendor container allows (Canon heap records in any order and depth, Minolta blocks, Fujifilm tag lists, movie boxes), a value is found wherever it is placed, with offsets taken relative to the enclosing container. Unknown records, padding and extra boxes before, between or after change no result.",
["inputs"],"every arrangement, order, nesting, padding and unknown element of the container formats",
"No test has a container with more than a couple of elements; relocation and unknown elements are never tried.",
["src/io.rs","src/canon/crw/ciff.rs","src/minolta.rs","src/fujifilm/raf.rs","src/mp4/container.rs","src/mp4/parse/mod.rs","src/mp4/parse/craw.rs","src/jpeg/container.rs"],
[("View offset arithmetic","src/io.rs"),("Heap / records","src/canon/crw/ciff.rs"),("block chain","src/minolta.rs"),("box parser","src/mp4/parse/mod.rs")],
["metadata, previews and raw data of CRW, MRW, RAF and CR3 files"])

p("C22","Skipping decompression returns the stored raw payload",
"Asking for raw data without decompression returns the compressed payload exactly as stored, marked as compressed, and described (size, pattern, areas, levels, white balance) as the file describes it; for data that is not compressed both requests return the same samples.",
["inputs","configurations"],"every supported file with compressed or uncompressed raw data",
"No raw file is parsed by the tests.",
["src/rawfile.rs","src/rawimage.rs","src/tiff/container.rs","src/dng.rs","src/canon/cr2.rs","src/canon/cr3.rs","src/nikon.rs","src/olympus.rs","src/panasonic.rs","src/pentax.rs","src/fujifilm.rs"],
[("skip_decompress branch of load_rawdata","src/<vendor>.rs")],["RawFile::raw_data(true) against raw_data(false)"])

p("C23","Text and value conversions are faithful",
"Formatting a metadata value, and converting mosaic patterns, type identifiers, data kinds and file types to their textual or numeric form and back, loses nothing, adds nothing (a number reads as the shortest decimal text that gives it back) and follows one rule for one value and for several.",
["inputs"],"every value of each convertible type","Tests convert a couple of constants.",
["src/metadata.rs","src/mosaic.rs","src/lib.rs","src/tiff/exif.rs"],
[("Display / From implementations","src/metadata.rs, src/mosaic.rs, src/lib.rs")],["Display, From/TryFrom"])
p("C24","The records of a CRW file are found as Exif metadata",
"For every CRW file, in both byte orders, wherever in the heaps below the image properties a record is, what its records say (image size and depth, orientation, make and model, owner, serial number, capture time, focal length, and the macro, flash, metering and exposure modes of the camera settings) is found in the listing, by key and in the directories under the Exif tag that has this meaning, with the value, type and byte order of the file; nothing else is listed.",
["inputs"],"every set and arrangement of records, every value of each, both byte orders",
"No test opens a CRW file.",
["src/canon/crw/ciff/container.rs","src/canon/crw/ciff.rs","src/canon/crw.rs"],
[("record to Exif translation","src/canon/crw/ciff/container.rs")],["metadata(), metadata_value(), orientation(), main_ifd(), exif_ifd() of a CRW file"])
p("C25","The command line tools report and save what the files hold",
"For every file, alone or among others, known or not, and whatever the options: ordiag reports what the library answers (type, identity, previews, raw image, colours, directories), saves every JPEG preview byte for byte as STEM_WxH.jpg and the samples as a PGM file, limited to their depth, and nothing else; metadata, ordump, identify and probe print what the library gives, for each file in turn; rawdata saves the stored payload, or says that there is none. A file that couldn't be written whole is not reported as written, and no file ends a tool.",
["inputs","configurations","fault_sequences"],"every set of files and options, names with dots, spaces and accents, and room for any number of bytes",
"One test builds a file name; no tool is run by the tests.",
["src/bin/ordiag.rs","src/bin/metadata.rs","src/bin/ordump.rs","src/bin/identify.rs","src/bin/probe.rs","src/bin/rawdata.rs"],
[("process_file, extract_rawdata, save_thumbnail, save_raw","src/bin/ordiag.rs")],["what the tools print, save and return"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))

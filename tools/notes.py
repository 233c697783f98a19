COMMON=' Trusted: the harness generators, encoders and reference model, rustc, and the sampled inputs standing for the rest; case counts are fixed and every case is a function of VERIF_SEED.'
def n(i,t,s): NOTE[i]=(t,s+COMMON)
n('C19','property-based testing: generated rectangles and ratios against exact integer arithmetic','Random exploration of sizes up to 2^31 and ratios, each result judged by exact arithmetic.')
n('C23','property-based testing: round trips and differential text formatting','Random values, patterns and identifiers; every element of the text is parsed back and compared.')
n('C06','property-based testing: generated directory trees in every host format against the values written','Random directories in both byte orders, inline and out of line, in 14 kinds of file; all typed accessors and the listing are compared with what was written.')
n('C07','property-based testing: generated directory trees against the model of names, order and dump','Random chains with EXIF, GPS, maker note and sub directories; listing, lookup, orientation and dump are compared with the model.')
n('C03','property-based testing: generated signatures, names and hints against the table of formats','Random leading bytes around every signature, random names and cases, every hint; the answer is compared with the table of formats.')
n('C04','property-based testing: generated sets of previews against the selection rule','Random files of 17 types holding previews of random sizes; requests around every listed size and at the extremes are compared with the rule.')
n('C05','property-based testing: generated previews in every place against the bytes put there','Random files of 17 types with previews in directories, sub directories, maker notes, EXIF blocks, heaps, headers and boxes, and decoys; sizes, kinds and bytes are compared with what was written.')
n('C08','property-based testing: an independent packer against the decoded samples','Random images in every packing, strip and tile layout of nine kinds of file, and truncated files; the decoded samples are compared with those packed.')
n('C09','property-based testing: an independent lossless JPEG encoder (round trip), truncation','Random images, predictors, precisions, components, Huffman tables, restart intervals, tiles and slices; the decoded samples are compared with those encoded.')
n('C10','property-based testing: an independent encoder (round trip) and reference decoder','Random images encoded by an independent encoder; buffers of noise against a reference decoder; files of every size that decides the storage.')
n('C11','property-based testing: an independent encoder (round trip)','Random images, with random code tables in the maker note and with the built-in one.')
n('C12','property-based testing: an independent encoder (round trip)','Random images, predictors and curves, in the code tables of the format.')
n('C13','property-based testing: differential against a reference decoder','Random blocks, over several rotated buffers, against an independent decoder.')
n('C16','property-based testing: generated describing metadata against a model of each format','Random values of every describing tag in twelve kinds of file; every getter of the raw image is compared with the model.')
n('C22','property-based testing: generated payloads against the bytes put there','Random files, compressed and not; what is returned without decompression is compared with the bytes put in the file, and with decompression with the samples.')
n('C14','property-based testing: an independent encoder (round trip)','Random images of ten bits, and of twelve with a plane of low bits, in the three decoder tables, within CIFF files whose records are in random order.')
n('C17','property-based testing: generated camera names and colour tags against tables and a model','Random files of twelve kinds naming known cameras, near misses and unknown ones, with and without colour matrices and illuminants of their own, asked in random order.')
n('C18','property-based testing: a reference rendering pipeline in floating point against the rendered samples','Random images, mosaics, levels, matrices, stages and targets, made by hand and from files; every sample of the result is compared with an independent pipeline.')
n('C21','property-based testing: metamorphic relation between a file and its rearrangement','Random CRW, MRW, RAF, CR3 and JPEG files are taken apart and put back in another order, with unknown records, blocks, tags, boxes and segments and with padding; every answer about both is compared.')
n('C01','property-based testing and fuzzing: structured files, damaged at every level, with every query asked','Random well formed files of 17 types with damage of entries, counts, offsets, lengths and payloads, wild bytes behind valid signatures and buffers given to the decoders; panics, aborts, hangs, stack overflows and allocations out of proportion are caught in a worker process.')
n('C15','property-based testing: an independent encoder (round trip)','Random images encoded by an independent model of the Fujifilm encoder, Bayer and X-Trans, lossless and lossy, several blocks, within RAF files.')
n('C20','property-based testing: model-based histories of C calls against the Rust interface','Random sequences of calls over several handles, with buffers of every size, null pointers, out of range indices and copies of handles; every value and error code is compared with what the Rust interface answers, and buffers with guard bytes.')
n('C02','property-based testing: metamorphic relation between histories of queries','Random files, well formed or damaged, in pairs: histories over several handles, opened from files, memory and streams, are compared with the answers of fresh handles, fresh memory being filled with another pattern.')
n('C24','property-based testing: generated CRW records against a model of their Exif meaning','Random sets of records in random heaps, both byte orders; the listing, values by key and the directories are compared with the model.')
n('C25','property-based testing: generated files, options and write limits given to the tools, against what was put in the files and the library','Random sets of files of 17 types, well formed, damaged or wild, given to the tools built from the tree; what they print is compared with what the library answers, the previews, samples and payloads they save with what was put in the files, and with room for few bytes what they say with what they wrote.')

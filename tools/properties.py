import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
few="the existing tests read a handful of sample files, whole, through a cursor or a BufReader of default capacity"
p("C01","HDU traversal yields every HDU, in order, at its true place",
 "Iterating over a well-formed FITS source yields exactly its HDUs, in file order, each once and of its declared kind (primary, image, binary table, ASCII table), with the header, data unit offset and data unit size the bytes of the file define; after the last HDU the iteration ends and stays ended. This does not depend on how the underlying reader delivers the bytes: read sizes, interrupted calls, buffer capacity, or a reader handed over at any position where the FITS stream starts.",
 ["inputs","schedules"],"all well-formed multi-HDU files and all benign delivery schedules (short reads, EINTR, buffer sizes, start offsets)",few,
 ["src/fits.rs","src/hdu/mod.rs","src/hdu/header/mod.rs","src/hdu/primary.rs"],
 [("Fits::next / consume_until_next_hdu","src/fits.rs"),("HDU::new_primary / new_xtension","src/hdu/mod.rs"),("data block sizes of the extensions","src/hdu/header/extension/*.rs")],
 ["Fits::from_reader","Iterator::next of Fits","HDU::get_data_unit_byte_offset","HDU::get_data_unit_byte_size","get_header"],
 [("pos","where the current header and data unit start","src/fits.rs")])
p("C02","Traversal does not depend on how data units were consumed",
 "Whatever the user did with the data of an HDU - nothing, iterated partly or fully, random accesses to pixels or rows, raw reads beyond the unit, reads that failed, data units with nonsense contents - the following HDUs of the list are the same as if no data had been read at all.",
 ["inputs","histories","fault_sequences"],"all files and all histories of data accesses between two steps of the traversal, including ones where a data access hits an I/O error",
 few+", each consumed completely or not at all",
 ["src/fits.rs","src/hdu/data/**"],
 [("absolute jump to the next HDU","src/fits.rs"),("data iterators borrow the reader of the list","src/hdu/data/mod.rs")],
 ["Fits::get_data","Iterator::next of Fits"])
p("C03","Image pixels and ASCII table bytes are exactly those of the file",
 "The pixels of an image, read sequentially, are exactly the values stored in the data unit (big endian, of the declared type and number, in file order) and then the iterator ends; reported image shape and size agree; the raw bytes of a data unit, and the bytes of an ASCII table, are exactly those of the file. This holds for every BITPIX and shape, every delivery schedule, and every history of random pixel reads and sequential reads on the same iterator.",
 ["inputs","schedules","histories"],"all pixel types, shapes and values, delivery schedules, and interleavings of random and sequential access",
 few+"; random access is hardly tested",
 ["src/hdu/data/image.rs","src/hdu/data/iter.rs","src/hdu/data/asciitable.rs"],
 [("It::next, read_value, Access","src/hdu/data/iter.rs"),("ImageData","src/hdu/data/image.rs"),("raw_bytes","src/hdu/data/*.rs")],
 ["ImageData::pixels","It::next","Value::read_value","raw_bytes"])
p("C04","Binary table values are exactly those of the file",
 "Reading a binary table gives, row by row and field by field, exactly the values its TFORMn columns define (all types, repeat counts, bit and logical columns, strings, complex numbers, variable-length arrays in the heap), whether read as single values, as rows, for a selection of columns or from a given row onwards; the number of values, rows and fields is right and the raw bytes are those of the file. This holds for every table and every delivery schedule.",
 ["inputs","schedules","histories"],"all tables (column types, repeats, heap layouts with gaps), column selections, row seeks and delivery schedules",
 "the tests read a few sample tables, mostly printing the values; selections, row seeks and heap gaps are hardly covered",
 ["src/hdu/data/bintable/*.rs","src/hdu/header/extension/bintable.rs"],
 [("TableData iterator, field and heap reading","src/hdu/data/bintable/data.rs"),("RowIt","src/hdu/data/bintable/row.rs"),("TFORM parsing","src/hdu/header/extension/bintable.rs")],
 ["TableData::next","row_iter","select_fields","seek_to_row","table_data","raw_bytes"])
p("C05","Tile-compressed images decompress to the original pixels",
 "Reading a tile-compressed image gives the pixels of the image it was made from, tile after tile: exactly for integers, and as the tiled image convention defines (scale, zero, blanks, subtractive dithering) for quantised floats. This holds for every supported algorithm (RICE_1, GZIP_1, GZIP_2), every image and tile shape including smaller border tiles, every pixel type and every delivery schedule.",
 ["inputs","schedules"],"all images, tile shapes, algorithms, quantisation parameters, column orders and delivery schedules",
 "the tests decompress a few sample images and write pictures to disk; no pixel is compared with the original, and the sample files are absent here",
 ["src/hdu/data/bintable/tile_compressed/*.rs","src/hdu/data/bintable/tile_compressed/dithering.rs","src/hdu/data/bintable/tile_compressed/rice.rs"],
 [("RICE decoder","src/hdu/data/bintable/tile_compressed/rice.rs"),("TileCompressedData iterators","src/hdu/data/bintable/tile_compressed/"),("dithering sequence","src/hdu/data/bintable/tile_compressed/dithering.rs")],
 ["BinaryTableData::TileCompressed iterator items"])
p("C06","Headers give back exactly the cards of the file",
 "Every card of a header is reported, in order, with the keyword, type, value and comment the FITS standard gives it - logical, integer, float, string (with doubled quotes and CONTINUE), undefined, HIERARCH, COMMENT, HISTORY, blank - and lookups and typed conversions by keyword agree with the cards; a card that cannot be parsed is kept as it is and disturbs no other card.",
 ["inputs","schedules"],"all headers of any length and card mix, and delivery schedules that split cards anywhere",
 "the unit tests parse selected single cards; sequences of cards (CONTINUE, repeated keywords, malformed ones in between) are sampled in a few headers",
 ["src/card.rs","src/hdu/header/mod.rs"],
 [("Card::try_from, Value parsing","src/card.rs"),("Header::parse, CONTINUE processing, ValueMap","src/hdu/header/mod.rs")],
 ["Header::cards","Header::get","get_parsed","keywords","comments","history"])
p("C07","A truncated file yields an exact prefix, then an end or an error",
 "When the source ends early, at any byte, everything reported before the end - HDUs, headers, pixels, table values, tiles - equals what the complete file gives, no value is invented or repeated, there is no panic, and iteration ends within a bounded number of steps. A cut inside a header, after its first card, is reported as an error, and no HDU after the cut is reported.",
 ["inputs","crash_points"],"all files and all cut positions, and all delivery schedules of what is left",
 "the tests hold a few truncated or malformed samples, none with every cut position",
 ["src/fits.rs","src/hdu/**"],
 [("EOF handling in traversal","src/fits.rs"),("EOF handling in iterators","src/hdu/data/**")],
 ["all iterators and Fits::next"])
p("C08","An I/O error is never silent and never corrupts what is read",
 "When a read or seek of the underlying source fails, transiently or for good, at any point, all that was reported before is right, the failure is reported as an error or ends that iteration, no value read in part or from a wrong place is ever reported as data, and iteration terminates within a bounded number of steps without panic. An interrupted call is retried and never seen.",
 ["fault_sequences","inputs","schedules"],"all files, all fault points and kinds, transient and permanent faults, all delivery schedules",
 "no test injects any I/O error",
 ["src/fits.rs","src/hdu/**"],
 [("error propagation and fused iterators","src/hdu/data/**"),("error_parsing_encountered","src/fits.rs")],
 ["all iterators and Fits::next"])
p("C09","Asynchronous reading gives the same HDUs and data as the file holds",
 "Reading a file through the asynchronous interface yields the same HDUs, headers and data (pixels, table bytes) as the file defines and as the synchronous interface yields, whatever the completion order and sizes of the pending reads, spurious wake-ups, the number of concurrent readers and the amount of data consumed before moving to the next HDU.",
 ["schedules","inputs","histories"],"all files, completion schedules, poll orders and degrees of consumption, with several tasks on one executor",
 "the asynchronous tests use readers that are always ready, so that no pending read ever occurs",
 ["src/async_fits.rs","src/hdu/data/stream.rs","src/hdu/mod.rs"],
 [("AsyncFits::poll_next","src/async_fits.rs"),("St::poll_next","src/hdu/data/stream.rs")],
 ["Stream of AsyncFits","AsyncFits::get_data","DataStream"])
p("C10","Asynchronous reading survives cancellation, errors and early ends",
 "A pending call of the asynchronous interface can be dropped and repeated at any point without losing, repeating or altering an HDU or a value; a pending call always leaves a waker registered with the source; and a truncated or failing source gives an exact prefix followed by an error or the end, within a bounded number of polls and without panic.",
 ["schedules","fault_sequences","crash_points","histories"],"all cancellation points, fault points, cut positions and completion schedules",
 "no test drops a future or makes an asynchronous read fail",
 ["src/async_fits.rs","src/hdu/data/stream.rs"],
 [("state kept between polls","src/async_fits.rs"),("partial items kept between polls","src/hdu/data/stream.rs")],
 ["Stream of AsyncFits","DataStream"])
p("C11","Reading a gzip file equals reading the file it holds",
 "A gzip-compressed FITS file read through the gzip front end gives the HDUs, headers and data of the uncompressed file, an uncompressed one passes through unchanged, and detection consumes nothing; a cut, damaged or failing compressed stream gives an error, and never wrong data, missing HDUs without an error, or a panic.",
 ["inputs","schedules","fault_sequences"],"all files and compression layouts, delivery schedules, cuts, bit flips and I/O errors of the compressed stream",
 "a couple of sample gzip files, absent here, are read whole",
 ["src/gz.rs","src/fits.rs"],
 [("GzReader (header detection, decompression into memory)","src/gz.rs")],
 ["GzReader::new","Fits over a GzReader"])
p("C12","Damaged bytes are contained: no panic, no hang, no memory blow-up",
 "For any bytes at all - in particular well-formed files with damaged header cards, sizes, column formats, array descriptors or compressed tiles - every reading operation returns a value, an error or the end: it neither panics nor loops for ever nor allocates memory out of proportion with the input. HDUs that lie before the damage are reported intact.",
 ["inputs","schedules"],"all byte strings close to valid files, and all reading operations on them",
 "the tests hold a few malformed samples",
 ["src/**"],
 [("validation at header parsing","src/hdu/header/**"),("bounds in the data readers","src/hdu/data/**")],
 ["every public reading operation"])
p("C13","Huge files: memory stays bounded and skipped data is not read",
 "On files of any size, up to terabytes, traversing the HDUs and reading single pixels, rows or slices needs memory independent of the size of the data units, and skipping a data unit or jumping to a pixel or row is done by seeking, without reading the skipped bytes; positions beyond 32 bits are handled exactly.",
 ["inputs","histories"],"all file sizes up to the range of the header values, and all histories of skips and random accesses",
 "no test can hold such a file",
 ["src/fits.rs","src/hdu/data/**"],
 [("Seek-based skipping","src/fits.rs"),("lazy iterators and random access","src/hdu/data/**")],
 ["bytes asked from the device","peak heap"])
p("C14","Image decoding gives the pixels of the image or an error",
 "Decoding a FITS file through the image crate, recognised by its contents or by its name (.fits, .fit, .fts, .fz), gives a picture with the dimensions, orientation (first row lowest), colour type and pixels (scaled as BSCALE and BZERO say) of the first viewable image of the file (plain or tile-compressed, one or three planes), whatever the delivery schedule; a file without one, a cut file or a failing source gives an error, never a picture with missing, stale or misplaced pixels, and never a panic.",
 ["inputs","schedules","fault_sequences","crash_points"],"all images, tilings, cuts, I/O errors and delivery schedules",
 "the tests decode a few sample files and look at nothing but success",
 ["src/image_integration.rs"],
 [("FitsDecoder","src/image_integration.rs")],
 ["image::ImageReader after registration of the decoding hook"])
p("C15","Clones of a list of HDUs are independent of it",
 "A clone of a list taken at any moment continues from that moment as the original would, yielding the same remaining HDUs and data, and nothing done with one - moving on, reading data, failing - changes what the other yields.",
 ["histories","schedules","inputs"],"all files, moments of cloning and interleavings of operations on the list and its clones",
 "no test clones a list",
 ["src/fits.rs","src/hdu/data/**"],
 [("Clone of Fits and of its reader","src/fits.rs")],
 ["Fits::clone and everything on it"])
p("C16","The struct command describes the file as it is, or fails",
 "The command `fits struct FILE` prints, for each HDU of the file, in order and once, its index, its type (PRIMARY, IMAGE, BINTABLE, ASCIITABLE), its shape (axes, pixel type and dimensions of an image, numbers of columns and rows of a table) and the true start and size in bytes of its data, and succeeds when it has reached the end of the file. When the file cannot be opened, a read or seek fails, or a header is cut, what was printed before is right, nothing is printed for what is not there, and the command fails; damaged headers make it neither panic nor hang, and the HDUs before them are printed as they are.",
 ["inputs","schedules","fault_sequences","crash_points"],"all files, delivery schedules, cut positions, I/O errors and damaged headers",
 "no test runs the command",
 ["crates/cli/src/**","src/fits.rs","src/hdu/**"],
 [("Struct::exec and what it prints","crates/cli/src/struct.rs"),("Fits::next","src/fits.rs")],
 ["standard output and the result of the command"])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))

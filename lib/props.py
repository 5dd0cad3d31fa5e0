DEC, LIB, VDB = "src/decode.rs", "src/lib.rs", "src/version_db.rs"

prop("C01", "Every undamaged symbol decodes to exactly its message and metadata",
     "For every version 1-40, error correction level, mask pattern and well-formed sequence of numeric, alphanumeric, byte, kanji and ECI segments that fits, decoding the intact symbol's module matrix succeeds and yields exactly the encoded bytes, nothing more or less. The metadata returned names the symbol's real version, error correction level and mask.",
     ["inputs", "configurations"], "all symbols: 40 versions x 4 levels x 8 masks x all messages",
     "The tests decode about 50 pictures, nearly all small versions with one byte segment; most of the 1280 version/level/mask combinations, the alignment pattern and block tables behind them, and mixed modes are never reached.",
     [DEC, VDB, LIB], [("read_data/reserved_cell zigzag and function patterns", DEC), ("mask_bit", DEC), ("block tables", VDB), ("codestream_ecc de-interleaving", DEC), ("decode_* segment readers", DEC)],
     observe=["Grid::decode_to", "Grid::decode"])
prop("C02", "Damage within the correction capacity never changes the result",
     "If in every Reed-Solomon block of a symbol at most floor(parity/2) codewords are damaged, arbitrarily and anywhere in data or parity, decoding still succeeds with exactly the original message and metadata. Damage to remainder modules has no effect.",
     ["inputs", "fault_sequences"], "all symbols, all damage patterns of up to floor(parity/2) codewords per block",
     "Tests contain a handful of photographed codes with little damage; the number of error positions and values per block is astronomically large and the limit itself (exactly floor(parity/2) in every block, short and long) is never exercised.",
     [DEC, VDB], [("block_syndromes, berlekamp_massey, Forney in correct_block", DEC), ("long and short block boundaries in codestream_ecc", DEC)],
     observe=["Grid::decode_to"])
prop("C03", "Uncorrectable symbols are refused, never passed off as data",
     "When a block holds more damage than can be corrected, decoding reports an error and hands no byte to the caller, unless every block, as corrected, is a valid Reed-Solomon codeword (the unavoidable miscorrection). What is delivered is then exactly the message those codewords spell.",
     ["inputs", "fault_sequences"], "all symbols, all damage patterns beyond capacity",
     "No test feeds over-damaged symbols and looks at what comes out; a decoder that skips the re-check, or emits the prefix it could correct, passes all of them.",
     [DEC], [("second syndrome check after correction", DEC), ("all blocks are corrected before any output", DEC)],
     observe=["Grid::decode_to", "Grid::decode"])
prop("C04", "Format information survives 3 bit errors and falls back to copy two",
     "The level and mask used are those of the unique format word within three bit flips of the first copy; if no format word is that close to the first copy the second copy is used by the same rule. If neither copy is that close to any format word, decoding reports the format error.",
     ["inputs", "fault_sequences"], "all 2^15 x 2^15 pairs of received format words, all versions",
     "Tests read format information of real codes with few or no flipped bits; 32768 received words per copy and the fallback are untested.",
     [DEC], [("correct_format", DEC), ("read_format two locations", DEC)],
     observe=["Grid::get_raw_data", "Grid::decode_to"])
prop("C05", "Segment streams are read per ISO 18004 and malformed ones are reported",
     "Any corrected data stream is interpreted segment by segment: count field widths by version band, group sizes and character tables per mode, ECI designators skipped, end at a terminator or when fewer than four bits remain. A segment cut short, or an unknown mode, makes decoding report the matching error, and nothing beyond what the stream encodes is ever output.",
     ["inputs"], "all data streams of all versions, well-formed or not",
     "Tests decode a few single-segment streams; the version bands, odd groups, multi-segment streams, streams that exactly fill the capacity and truncated streams are not covered.",
     [DEC], [("decode_payload and decode_numeric/alpha/byte/kanji/eci", DEC), ("take_bits/bits_remaining", DEC)],
     observe=["Grid::decode_to"])
prop("C06", "Output protocol: right bytes in order for every writer, errors surfaced",
     "Whatever the caller's writer does (accepting parts of a buffer, being interrupted, refusing, failing), the bytes it has accepted are always a prefix of the message in order without gaps or repeats, and a writer failure is reported as an I/O error rather than success. Success means the whole message was accepted; the String interface returns either the whole message or an error, and reports an encoding error exactly when the message is not UTF-8.",
     ["fault_sequences", "inputs"], "all writers (every sequence of short writes, interruptions and failures), all messages",
     "All tests use a Vec or String, which never fails or writes short.",
     [DEC, LIB], [("write_all in the segment readers", DEC), ("Grid::decode UTF-8 conversion", LIB)],
     observe=["Grid::decode_to with a custom io::Write", "Grid::decode"])
prop("C07", "Mirrored symbols decode like their straight form",
     "A symbol whose rows and columns are exchanged decodes to the same message and metadata as the straight symbol, with the same tolerance to damage. If both readings fail the error of the straight reading is reported, and a symbol whose straight reading is correctable is never re-read mirrored.",
     ["inputs", "configurations"], "all symbols, all damage, both orientations",
     "Two mirrored pictures are tested; which error wins, mirrored damage and mirrored large versions are not.",
     [DEC], [("MirroredGrid retry in decode", DEC)], observe=["Grid::decode_to", "Grid::decode"])
prop("C08", "Raw data is exactly the drawn modules in codeword order",
     "The raw bit stream of a grid contains exactly the non-function modules of its version in codeword order, still masked, uncorrected and unmirrored, packed most significant bit first with its exact length and zero padding, together with the right metadata. Grid snapshots reproduce every module at its own row and column, and version and size convert into each other exactly.",
     ["inputs", "configurations"], "all module matrices of all versions",
     "One test looks at the raw data of one symbol.",
     [DEC, LIB], [("get_raw/read_data/RawData::push", DEC), ("SimpleGrid::from_func", LIB), ("Version::from_size/to_size", DEC)],
     observe=["Grid::get_raw_data", "SimpleGrid", "RawData::push", "Version"])
prop("C09", "Decoding any grid terminates with a result, reading only inside it",
     "For every grid of any size and content the decoder returns: it never panics, hangs or asks the grid for a module outside its bounds. Sizes below 21 or above 180 modules are refused as invalid versions, and the answer for every valid size is the one its modules determine.",
     ["inputs"], "all grids of all sizes",
     "Tests only use grids of valid codes.",
     [DEC, LIB], [("Version::from_size guard", DEC), ("bounds in read_format/read_data", DEC)],
     observe=["Grid::decode_to", "Grid::decode", "Grid::get_raw_data", "a caller-supplied BitGrid"])

PRE, DET, GRD, CAP, GEO = "src/prepare.rs", "src/detect.rs", "src/identify/grid.rs", "src/identify/match_capstones.rs", "src/geometry.rs"
prop("C10", "Every clean upright symbol is found, exactly read and correctly placed",
     "A picture showing one symbol of any version, drawn upright at a whole number (2 or more) of pixels per module with a quiet zone of at least one module, in any of the four quarter turns, mirrored or not, at any place, yields exactly one grid whenever its three finder patterns are the only finder-like shapes in it. That grid has the symbol's size, every one of its modules, its four corners in order (top left, top right, bottom right, bottom left of the symbol, each within two modules), and decodes to its message.",
     ["inputs", "configurations"], "versions 1-40, all scales from 2 pixels per module (beyond 150), positions, quarter turns, mirror images and contents",
     "The tests search some fifty pictures, nearly all small versions; large versions, where one wrong module size or alignment position shows, large modules (32-bit overflow), pictures ending right at the symbol and mirrored or turned symbols are not among them.",
     [DET, GRD, CAP, GEO, PRE, VDB], [("find_capstones / LineScanner", DET), ("find_groupings", CAP), ("SkewedGridLocation::from_group, timing scan, find_alignment_pattern, jiggle", GRD), ("Perspective", GEO), ("Grid.bounds", LIB)],
     observe=["PreparedImage::detect_grids", "Grid::bounds", "Grid::decode"])
prop("C11", "Rotated, sheared and tilted symbols are found, exactly read and placed",
     "A clean symbol of version 2 to 6 at 10 to 14 pixels per module, turned by any angle, sheared or stretched by up to 10 percent and tilted by up to 10 percent across its side, mirrored or not, yields exactly one grid whenever its three finder patterns are the only finder-like shapes in the picture. That grid has the symbol's size, all of its modules exactly, its corners in order within two modules, and decodes to its message.",
     ["inputs", "configurations"], "all angles, shears, stretches and tilts in the stated range, versions 2-6, all contents",
     "The tests have a few photographs at fixed angles; the direction-dependent code (leftmost to line, ordering of capstones, corners, perspective fit) is sampled at those angles only.",
     [GRD, GEO, CAP, DET], [("rotate_capstone, find corners, measure_timing, find_alignment, jiggle", GRD), ("Perspective::create/map/unmap, line_intersect", GEO), ("find_corners/PerspectiveMap of a capstone", DET)],
     observe=["PreparedImage::detect_grids", "Grid::bounds", "Grid::decode"])
prop("C12", "Several symbols in one picture are each found once, none is invented",
     "A picture of several clean upright symbols whose finder patterns cannot be taken for those of one another yields exactly one grid per symbol, each reading and placed as if it stood alone. In any picture whatever the number of grids is at most a third of the number of finder patterns: no pattern serves two grids.",
     ["inputs", "configurations"], "all arrangements of 2-4 symbols, all pictures for the bound",
     "One tested picture has several codes; grouping is combinatorial in the number of patterns.",
     [CAP, LIB, GRD], [("find_groupings: neighbours, scoring, removal of used capstones", CAP), ("detect_grids", LIB)],
     observe=["PreparedImage::detect_grids"])
prop("C13", "Searching never changes what is black or white, and shades regions whole",
     "After any number of searches of any picture exactly the pixels that were black are non-white, and all pixels of one connected black region carry the same shade, different kinds of pixel never mixing within a region. Regions marked as alignment patterns are never finder rings and are at most one per three finder patterns; no pixel is left with a temporary shade.",
     ["inputs", "histories"], "all pictures, all numbers of searches",
     "No test looks at the picture after a search.",
     [PRE, DET, GRD], [("flood fill (AreaFiller) and repaint_and_apply", PRE), ("LRU of region shades and repaint on eviction", PRE), ("repaint to CapStone / Alignment", DET)],
     state=[("pixel shades", "white, black, finder ring, alignment pattern, discarded region colours", PRE)],
     observe=["PreparedImage::get_pixel_at", "PreparedImage::detect_grids"])
prop("C14", "Exactly the shapes in finder proportion are marked, however crowded",
     "The regions marked as finder patterns by a search are exactly those the definition yields: scanning rows from the top, each row left to right, runs in proportion 1:1:3:1:1 (each within three quarters of a module) whose outer runs belong to one region and middle run to another, neither claimed before, with the inner area more than 10 and less than 70 percent of the outer. How many other regions the picture holds or were looked at before makes no difference, and a second search marks nothing new and finds no further grid.",
     ["inputs", "histories"], "all pictures, including those with more regions than the 251 shades available",
     "No tested picture comes near the number of region shades, and shapes just inside and outside the proportions do not occur.",
     [DET, PRE], [("LineScanner::advance, test_for_finder", DET), ("is_capstone checks in find_capstones", DET), ("get_colored_region: LRU cache, eviction, clone", PRE)],
     state=[("region cache", "least recently used regions and their shades", PRE)],
     observe=["PreparedImage::get_pixel_at", "PreparedImage::detect_grids"])
prop("C15", "Searching and decoding any picture terminates without panicking",
     "For every picture of any size and content, including empty and one-pixel-wide ones, searching returns, and so does reading each grid found: no panic, no arithmetic overflow, no endless or runaway search.",
     ["inputs"], "all pictures",
     "Tests and a fuzz target without oracle cover few pictures; the breaking geometry (degenerate perspectives, lines at infinity, runaway searches) needs particular shapes.",
     [GRD, GEO, DET, CAP, PRE, LIB], [("perspective and intersection arithmetic", GEO), ("timing scan, alignment search and jiggle", GRD), ("flood fill", PRE)],
     observe=["PreparedImage::detect_grids", "Grid::decode"])
prop("C16", "Grey pictures are thresholded as defined, bitmaps taken as they are",
     "Preparing a grey picture makes a pixel black exactly when it is darker than 95 percent of the local mean: the average of two running means that travel along the rows in alternating, opposite directions, each weighing the last eighth of a row and carried over from row to row. Preparing from a function and from a caller's buffer agree, and preparing a bitmap or a ready buffer takes every pixel as it is; width and height are kept.",
     ["inputs"], "all pictures of all sizes",
     "Tests use the thresholding only through whole photographs and prepare_from_bitmap never against the pixels given.",
     [PRE], [("prepare: moving averages and row thresholds", PRE), ("prepare_from_greyscale, prepare_from_bitmap, without_preparation", PRE)],
     observe=["PreparedImage::prepare", "PreparedImage::prepare_from_greyscale", "PreparedImage::prepare_from_bitmap", "PreparedImage::without_preparation"])
prop("C17", "Copies of a picture are independent and behave alike",
     "A copy of a prepared picture, made before or after searching, finds the same grids as the picture it was copied from would in the same state, and searching either leaves the other untouched. The same pixels held in a caller's own buffer type give the same grids and marks.",
     ["histories", "inputs"], "all pictures, all orders of copying and searching",
     "No test copies a picture.",
     [PRE, LIB], [("Clone of PreparedImage: buffer and region cache", PRE), ("ImageBuffer implementations", PRE)],
     state=[("region cache", "copied with the picture", PRE)],
     observe=["PreparedImage::clone", "PreparedImage::detect_grids", "PreparedImage::get_pixel_at"])
prop("C18", "Symbols are found and read amid clutter and through damage",
     "Clean or damaged upright symbols (damage to modules of codewords and format information within the correction capacity), each with a white quiet zone of at least one module around it, are found, placed and decoded as if alone in an ideal picture, and their modules are returned exactly as drawn, damage included. This holds whatever else the picture shows outside of the quiet zones (print, lines, noise, frames, solid black), whenever the symbols' own finder patterns are the only finder-like shapes.",
     ["inputs", "configurations"], "all symbols, damage within capacity, all surroundings",
     "Tests use a few photographs whose surroundings are what they are.",
     [GRD, DET, PRE, CAP, LIB, "src/decode.rs"], [("find_capstones: what else is in a row", DET), ("regions: shades, flood fill, eviction", PRE), ("alignment search and fitness", GRD), ("detect_grids", LIB)],
     observe=["PreparedImage::detect_grids", "Grid::decode_to", "Grid::bounds"])
prop("C19", "Grey pictures are searched like their black and white pixels",
     "Searching a picture prepared from grey values, by function or from a buffer, gives the same grids (bounds, modules, decoded data) and leaves the same marks as searching a bitmap of the black and white pixels that preparation produced. So a symbol photographed in uneven light or with noise, whose thresholded picture shows it cleanly, is found, placed and decoded exactly.",
     ["inputs", "histories"], "all grey pictures",
     "Tests search photographs for a few messages and never compare with the thresholded picture.",
     [PRE, LIB, DET], [("prepare, prepare_from_greyscale: what a prepared picture consists of besides pixels", PRE), ("detect_grids", LIB)],
     state=[("region cache", "empty in a freshly prepared picture, however prepared", PRE)],
     observe=["PreparedImage::prepare", "PreparedImage::prepare_from_greyscale", "PreparedImage::detect_grids", "PreparedImage::get_pixel_at"])
prop("C20", "Exported images and point queries show the true state",
     "A grid written to a file is an image of one pixel per module, black where the module is dark and white elsewhere, row by row. A picture written to a file shows white pixels white, unmarked black pixels black, and marked ones in one of eight colours determined by their shade (finder rings and alignment patterns differ). Asking a picture for the pixel at any point, inside or outside, gives the pixel nearest to it.",
     ["inputs"], "all non-empty pictures and grids, all points",
     "No test exports anything or asks for points outside of a picture.",
     [LIB, PRE], [("BitGrid::write_grid_to", LIB), ("write_state_to, get_pixel_at_point", PRE)],
     observe=["BitGrid::write_grid_to", "PreparedImage::write_state_to", "PreparedImage::get_pixel_at_point"])

NOT_APPLICABLE = []

"""What decides each property."""

TV = "TLA+ specification (TLC): trace validation of the real decoder"
NOTE = ("Every recorded execution of the real code is a behaviour of the TLA+ specification (spec/), which derives the expected result from the module matrix alone; "
        "covers what was executed, not all inputs. Trusts TLC, the recorder's faithful logging and the specification's transcription of ISO/IEC 18004.")
TS = "TLA+ specification (TLC): trace validation of real searches"
NOTE2 = ("Every recorded search is checked against the TLA+ specification of pictures, regions, finder patterns and scenes (spec/Regions, Finder, Scene); "
         "connected regions are certified, not trusted. Covers the pictures searched, not all pictures. Trusts TLC and the recorder's faithful logging.")
PLAN = {
    "C01": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "clean", "TDecode"), ("gen", "MC_Symbols", "clean"), ("model", "MC_Layout", "MC_Layout")],
        "rule": "all 40 versions x 4 levels x 8 masks; random segments (five modes, mixed, 20-100% full) drawn from the seed; every case is a complete symbol with a non-empty known message unless the capacity is too small",
    },
    "C02": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "damage", "TDecode"), ("gen", "MC_Symbols", "damage"), ("model", "MC_RS", "MC_RS"), ("model", "MC_RS", "MC_RS6", "thorough")],
        "rule": "symbols of all versions and levels with floor(parity/2) damaged codewords in every block (scattered, bursts, parity only, data only, both ends), remainder bits and format copies damaged too; a case is distinct by its module matrix",
    },
    "C03": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "beyond", "TDecode"), ("model", "MC_RS", "MC_RS"), ("model", "MC_RS", "MC_RS16", "thorough")],
        "rule": "symbols with at least one block damaged beyond its correction capacity (capacity+1 up to all codewords); distinct by module matrix",
    },
    "C04": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "format", "TFormat"), ("suite", "fmtsym", "TDecode"), ("model", "MC_Format", "MC_Format")],
        "rule": "all 2^15 words in copy 1; all 2^15 words in copy 2 with copy 1 unreadable; random pairs on every version; whole symbols with damaged copies decoded",
    },
    "C05": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "segments", "TDecode"), ("model", "MC_Segments", "MC_Segments"), ("model", "MC_Segments", "MC_Segments3", "thorough")],
        "rule": "every character group of every mode, every count boundary, every cut position of streams, every number of bits left for the last segment, malformed tails and noise streams, each wrapped in a valid symbol",
    },
    "C06": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "writers", "TDecode"), ("model", "MC_Writers", "MC_Writers")],
        "rule": "every single writer fault (short write, zero, interrupted, error) at each of the first 18 writes, pairs of faults, random fault scripts, UTF-8 boundary texts for the String interface",
    },
    "C07": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "mirror", "TDecode"), ("gen", "MC_Symbols", "mirror")],
        "rule": "transposed symbols of all versions: clean, damaged to capacity, broken, malformed",
    },
    "C08": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "raw", "TRaw"), ("model", "MC_Layout", "MC_Layout")],
        "rule": "random module matrices of all versions and invalid sizes, directly and through a snapshot grid; all sizes 0..400 for the version relation",
    },
    "C09": {
        "level": "model_checking", "technique": TV, "note": NOTE,
        "steps": [("suite", "anygrid", "TDecode")],
        "rule": "arbitrary module matrices of all sizes 0..260 and absurd sizes; distinct by module matrix",
    },
    "C10": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "placed", "TSearch")],
        "rule": "all versions 1-40 upright at 2-14 pixels per module, every quarter turn, mirrored or not, quiet zone 1-4 modules, any offset, up to 70000 pixels from the origin (validated directly, and sweeps triaged by the recorder and decided by TLC); small versions at 20-190 pixels per module (compared by the recorder); distinct by picture",
    },
    "C11": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "tilted", "TSearch")],
        "rule": "versions 2-6 at 10-14 pixels per module, any angle, shear, stretch and tilt up to 10%; 240 validated pictures and a sweep of 6000 (quick) triaged by the recorder; distinct by picture",
    },
    "C12": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "several", "TSearch"), ("model", "MC_Groups", "MC_Groups"), ("model", "MC_Groups", "MC_Groups6", "thorough")],
        "rule": "2-4 upright symbols at random places, scales and turns such that finder patterns of different symbols cannot be taken for those of one; crowds of rings for the number of grids; distinct by picture",
    },
    "C13": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "regions", "TSearch"), ("model", "Shades", "MC_Shades"), ("model", "Shades", "MC_Shades6", "thorough")],
        "rule": "noise, rings of all shapes, tails, touching and nested regions, symbols scribbled over, crowds of decoys; every pixel compared before and after one and two searches; distinct by picture",
    },
    "C14": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "crowd", "TSearch"), ("model", "MC_Scan", "MC_Scan"), ("model", "MC_Scan", "MC_Scan17", "thorough"), ("model", "Shades", "MC_Shades")],
        "rule": "crowds of decoys and real finder patterns, up to several hundred regions looked at in one picture (more than the 251 shades), defective patterns of all kinds; distinct by picture",
    },
    "C15": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "chaos", "TSearch")],
        "rule": "pictures that once broke something, degenerate sizes, 300 validated and 400000 (quick) unvalidated arbitrary pictures with ring-like shapes, tails and noise, pictures of extreme sides and of millions of pixels (solid, combs, spirals, checkers); distinct by picture",
    },
    "C16": {
        "level": "model_checking", "technique": "TLA+ specification (TLC): trace validation of real preparations", "note": NOTE2,
        "steps": [("suite", "binarise", "TBinarise"), ("model", "MC_Binarise", "MC_Binarise"), ("model", "MC_Binarise", "MC_Binarise5"), ("model", "MC_Binarise", "MC_Binarise1", "thorough"), ("model", "MC_Binarise", "MC_Binarise3", "thorough")],
        "rule": "grey pictures of widths 0-260 (every window size up to 32), some of widths 500-3000 and 36000-60000: noise, constants, two levels, gradients, checkers, lit symbols; all four ways to prepare; distinct by picture",
    },
    "C17": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "copies", "TSearch"), ("model", "MC_Finder", "MC_Finder")],
        "rule": "pictures of crowds, rings, scribbled symbols: original, clone before, clone after, repeated search, caller's buffer; distinct by picture",
    },
    "C18": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "amid", "TSearch"), ("model", "MC_RS", "MC_RS")],
        "rule": "1-3 upright symbols of versions 1-10, clean, damaged to capacity (scattered, bursts, blots) and with damaged format copies, quiet zone of 1-4 modules, surrounded by black, noise, print, lines, grids, broken finder patterns; 300 validated pictures and a sweep of 6000 (quick); distinct by picture",
    },
    "C19": {
        "level": "model_checking", "technique": TS, "note": NOTE2,
        "steps": [("suite", "greysearch", "TSearch"), ("model", "Shades", "MC_Shades")],
        "rule": "symbols, cluttered symbols, crowds of decoys and arbitrary pictures rendered in grey (uneven light, contrast, noise) and grey noise, prepared in both ways; 400 validated pictures and a sweep of 5000 (quick); distinct by grey picture",
    },
    "C20": {
        "level": "model_checking", "technique": "TLA+ specification (TLC): trace validation of exported images", "note": "Every exported image and queried pixel recorded is checked against the TLA+ specification spec/TExport. Covers the pictures and grids exported, not all. Trusts TLC, the recorder's faithful logging and the PNG codec of the image crate.",
        "steps": [("suite", "exports", "TExport")],
        "rule": "arbitrary grids of sizes 1-41, found grids, pictures before and after a search with up to all shades in use; points inside, at the border and at the ends of the coordinate range; distinct by record",
    },
}

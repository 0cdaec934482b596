"""Per property: what the check establishes (note), its bounds, and what lies outside the claim."""

ALL = "all values of every argument; no bound is hit (unwinding assertions hold)"
POS1 = "one operation, started from every consistent position with at most one king a side: any board, hands, side, ply, last move"
POSK = "one operation, started from every consistent position with any number of kings: any board, hands, side, ply, last move"

TEXT = {
    "C01": dict(explanation="Squares: every file/rank/number/colour argument is symbolic; file, rank, number, index, enumeration, constants and the relative view are compared with 9*(f-1)+r.",
                bounds=[ALL], outside=[]),
    "C02": dict(explanation="Square::shift on every square and every pair of i8 deltas against integer arithmetic, with overflow checks on and off.", bounds=[ALL], outside=[]),
    "C03": dict(explanation="Every set operation in every form on symbolic bitboards, compared with a u128 mask at every square.", bounds=["bitboards: any of the 2^81 sets, both operands"], outside=[]),
    "C04": dict(explanation="pop removes exactly one member of any set; iteration to the end is decided for sets of bounded size, and by induction on pop for all sets.",
                bounds=["one pop: any set", "whole iteration: see harness (sets of few members); iteration over larger sets follows from the one-step result"], outside=[]),
    "C05": dict(explanation="flip, the four shifts (0..=9), and file patterns on any bitboard, compared with translated masks.", bounds=[ALL], outside=[]),
    "C06": dict(explanation="RawBitboard/SwappedBitboard conversions and operators on any bitboards.", bounds=[ALL], outside=[]),
    "C07": dict(explanation="Piece, PieceKind and Color conversions on every byte.", bounds=[ALL], outside=[]),
    "C08": dict(explanation="Hands with seven symbolic counters and any kind.", bounds=[ALL], outside=[]),
    "C09": dict(explanation="Any move or pair of moves; conversion, constructors, accessors and documented bits.", bounds=[ALL], outside=[]),
    "C10": dict(explanation="Every value of every bridge type.", bounds=[ALL], outside=[]),
    "C11": dict(explanation="From any consistent position, one placement or one move; every view is compared at a symbolic square and a symbolic piece, so for all of them. With the base case (C30: empty and "
                            "starting position) this is an inductive step over histories of any length.", bounds=[POSK], outside=["positions with inconsistent views, which no operation produces (that is the inductive claim)"]),
    "C12": dict(explanation="From any consistent position, one placement or move; and short histories of placements that pass through states with several kings.",
                bounds=[POS1, "histories of 3 placements (thorough: 4) from the empty board, through any states"], outside=["the reported king while a player has several kings"]),
    "C13": dict(explanation="make_move on any position and any move: accepted exactly when a 15-line model accepts.", bounds=[POS1, "any move value"], outside=["positions with two kings of one player"]),
    "C14": dict(explanation="make_move on any position and any unacceptable move: all views at symbolic probes and derived equality with a clone.", bounds=[POS1, "any move value"], outside=["positions with two kings of one player"]),
    "C15": dict(explanation="make_move on any position and any acceptable move, compared with the model at symbolic probes.", bounds=[POS1, "any move value"], outside=["positions with two kings of one player"]),
    "C16": dict(explanation="make_move on any position and any move: squares outside the move unchanged, and the counts over origin, destination and hands add up.", bounds=[POS1, "any move value"],
                outside=["hand counters at 255 (the property excludes them)"]),
    "C17": dict(explanation="From the starting position (and thorough: from any position) a number of arbitrary moves, accepted or not, are played on a full position; the list of moves, the initial position and the current position "
                            "are compared with the model at symbolic probes, and every accessor with the current position's; a long fixed history is followed by an arbitrary move.",
                bounds=["histories of 2 arbitrary moves (thorough: 3)", "8 (thorough: 40 and 300) fixed moves followed by 1 arbitrary move"], outside=["longer histories of arbitrary moves"]),
    "C18": dict(explanation="A reader takes the text apart as it is written and compares it with the board at a symbolic square, so at every square; it also rejects every non-canonical spelling.",
                bounds=["quick: any pieces (any number of kings) on any three consecutive ranks out of four windows that cover the board, a fixed pattern on the other ranks", "thorough: any of the 29^81 boards"],
                outside=["quick: dependence between ranks further apart"]),
    "C19": dict(explanation="Side, hands and ply are symbolic; the reader compares what is written with the canonical text byte by byte.",
                bounds=["any side, any two hands of seven 8-bit counters, any ply from 1 to 65535, empty board"], outside=["ply 0, reached by playing a move at ply 65535 (its text is covered by C24 only)"]),
    "C20": dict(explanation="Every value of every type is written and compared with its token; tokens of two symbolic values are equal exactly when the values are (up to the owner of a dropped piece).",
                bounds=[ALL], outside=[]),
    "C21": dict(explanation="The sink refuses after a symbolic number of writes; error results, prefix and silence after the failure are asserted.",
                bounds=["the refusal: at any write", "tokens: all values", "positions: any hands, side and ply with the empty board; any pieces on ranks 4 and 5 with a fixed pattern elsewhere"],
                outside=["quick: hands written on their own (thorough has them)"]),
    "C22": dict(explanation="The C text is stored in a buffer of symbolic filling and compared byte by byte with the written text. The promised size is decided in two steps: CBMC shows that the length is at most the sum of "
                            "parts (board: a byte a square, one a promoted piece, eight slashes; hands: a letter and digits a kind; the rest), and z3 shows that the sum is at most 139 for all counts of a standard set.",
                bounds=["equality of texts: fixed board but for three symbolic squares, symbolic hands counters, ply and side (separately)", "owned texts: fixed but for the side (heap strings are costly to encode)",
                        "length: any pieces on three consecutive ranks (thorough: any board), any hands, side and ply"],
                outside=["owned strings of other positions, which go through the same generic writer"]),
    "C23": dict(explanation="For every small type any two (three) values: equality against the compared data, all operators against cmp, antisymmetry, totality, transitivity, and the sequence of bytes fed to a hasher; for positions and games "
                            "pairs differing in symbolic data, clones, and positions reached by a move against the same position put together.",
                bounds=["small types: " + ALL, "positions: pairs that differ in side, ply, hands, last move and three squares; triples of the same kind; any position against its clone", "full positions and games: pairs that differ in ply, hand, moves, resolution"],
                outside=["order and hash of two positions that differ in more than three squares (the fields are compared one after another, by the derived code of arrays)"]),
    "C24": dict(explanation="Every public operation is called with every argument its documentation allows, with and without debug assertions; what is decided is that no panic, overflow, bad shift, unchecked access, unreachable code or invalid "
                            "enumeration value is reached, and that every returned value is one of its type. All other harnesses carry the same built-in checks.",
                bounds=[ALL, POSK + "; histories of placements and moves of several kings from the empty board", "text: any ply around its wrap, any hand of one player"],
                outside=["writes through get_unchecked_mut that stay inside the same object are seen only by their effect (Kani does not check them; the replay under Miri would)", "Debug output"]),
    "C25": dict(explanation="A symbolic implementor (any status, any answers, any list of up to 3 moves, answering differently for other positions and moves) is asked through the four provided methods on a position with a history.",
                bounds=["implementor: any status, reasons, lists of up to 3 moves", "position: one fixed move after a starting position with any ply and golds in hand; any move"],
                outside=["implementors that call a move legal that the position refuses (a debug assertion of the code excludes them)"]),
    "C26": dict(explanation="Each exported function is called by its linker symbol and compared with the Rust operation (or with the model) on symbolic arguments.", extra=["-Z", "c-ffi"],
                bounds=[ALL, POS1], outside=["the bytes written by the two SFEN functions beyond one fixed position (C22 decides them)"]),
    "C29": dict(explanation="Fresh games go through four arbitrary resolve/unresolve steps; resolution, C view and position are compared after each.", bounds=["4 arbitrary steps"], outside=["longer sequences (each step sets the whole state, so they add nothing)"]),
    "C30": dict(explanation="Each way to make a starting or empty position is compared with the documented one at a symbolic square and piece through every view.", bounds=[ALL], outside=[]),
    "C31": dict(explanation="Each setter on any position with any argument; two placements in both orders.", bounds=[POSK, "order: two placements, board from any position (views, kings) and from the empty board (equality)"],
                outside=["derived equality after reordering on non-empty boards (decided there through all views instead)"]),
}

NOT_APPLICABLE = {
    "C32": "The header is a text generated once by cbindgen and the exported interface is a set of linker symbols; agreement is a syntactic comparison of two declarations with no inputs, so there is nothing to execute symbolically.",
    "C33": "Symbol tables and file sizes are facts about one linked artefact, without inputs; a solver has nothing to decide.",
}

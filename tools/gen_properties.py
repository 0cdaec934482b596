#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The properties are kept here as Python so that they can be edited by hand."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, functions, entry, state=None, oracle=None, mech=None, observe=None):
    a = {"files": files, "functions": functions}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": a, "_entry": entry, "_observe": observe})
SRC = "shogi_core/src/"
def s(*n): return [SRC + x + ".rs" for x in n]

p("C01", "Square coordinates form one consistent bijection with the board",
  "A square is produced from a file and a rank exactly when both lie in 1..=9, and from a number exactly when it lies in 1..=81; there are exactly 81 squares. "
  "For every square, its file, rank, number (9*(file-1)+rank), zero-based array index, position in the enumeration of all squares and named constant denote the same board cell. "
  "The view from White's side (relative file and rank, relative construction, flip) is the 180-degree rotation of the board and is its own inverse, and from Black's side it is the identity.",
  ["inputs"], "every pair of u8 coordinates, every u8 number, every square, both colours, every named constant",
  "The constants come from a build script and most of them are tested only through their USI spelling; the remaining tests compare a few views at a time, never all of them with each other.",
  s("square") + ["shogi_core/build.rs"], ["Square::new", "Square::new_relative", "Square::file", "Square::rank", "Square::index", "Square::array_index", "Square::flip", "Square::relative_file", "Square::relative_rank", "Square::from_u8", "Square::all"], ["Square::*"])
p("C02", "Square::shift is exact board translation for every delta",
  "Shifting a square by any file delta and any rank delta yields the square at the translated coordinates when that lies on the board, and nothing otherwise. "
  "It never wraps around to the other side of the board, never panics, and shifting back by the opposite delta returns to the start.",
  ["inputs"], "all 81 squares and all 65,536 pairs of i8 deltas, including -128 and 127",
  "The existing test loops over -128..127 and therefore never passes +127, and uses its own helper for the expected value.",
  s("square"), ["Square::shift"], ["Square::shift"])
p("C03", "Bitboards are exactly sets of squares",
  "Every bitboard operation behaves as the corresponding operation on subsets of the 81 squares: empty, single, membership, count, emptiness, equality, and, or, xor, and-not, complement, in every form offered (by value, by reference, assigning, const, with a square on the right-hand side). "
  "No operation ever produces an element outside the 81 squares, so two bitboards with the same members are always equal.",
  ["inputs"], "all 2^81 values of each bitboard operand and every square",
  "Tests use a handful of hand-drawn boards; 2^162 operand pairs and the many operator forms cannot be enumerated.",
  s("bitboard"), ["Bitboard::empty", "Bitboard::single", "Bitboard::contains", "Bitboard::count", "Bitboard::is_empty", "Bitboard::or", "Bitboard::and", "Bitboard::xor", "Bitboard::andnot", "BitAnd", "BitOr", "BitXor", "Not"], ["Bitboard operators"])
p("C04", "Popping a bitboard enumerates its members exactly once",
  "Popping a non-empty bitboard returns one of its members and removes exactly that member; popping an empty one returns nothing and leaves it empty. "
  "Hence iterating a bitboard visits every member exactly once and then ends, and the iterator's size hint is never wrong.",
  ["inputs", "histories"], "all 2^81 bitboards, one pop from any of them, hence (by induction) any number of pops; also full iterations",
  "Iteration is tested on two small boards; an element lost or duplicated only for particular combinations of members is not sampled.",
  s("bitboard"), ["Bitboard::pop", "Iterator for Bitboard"], ["Bitboard::pop", "Bitboard::next"])
p("C05", "Bitboard geometry moves every member by the stated displacement",
  "Flipping a bitboard rotates every member by 180 degrees, and shifting it up, down, left or right by 0..=9 moves every member by that many ranks or files, dropping exactly the members that leave the board. "
  "Building a bitboard from a file pattern and reading a file pattern back agree with membership, rank by rank. "
  "The results contain no element outside the 81 squares.",
  ["inputs"], "all 2^81 bitboards, every delta 0..=9, every file 1..=9 and every 9-bit pattern",
  "The shift tests compare the left and right shifts with themselves, and otherwise sample a few boards.",
  s("bitboard"), ["Bitboard::flip", "Bitboard::shift_up", "Bitboard::shift_down", "Bitboard::shift_left", "Bitboard::shift_right", "Bitboard::from_file_unchecked", "Bitboard::get_file_unchecked"], ["Bitboard::flip", "Bitboard::shift_*", "Bitboard::*_file_unchecked"])
p("C06", "Raw and byte-swapped bitboards are lossless set views",
  "Converting a bitboard to its raw integer and back gives the same bitboard, and likewise for byte-swapped bitboards. "
  "The raw integer is the set itself: it is order-independent, distinct for distinct sets, and or, and, xor, and-not act on it bit by bit. "
  "Swapping bytes reverses the 16 bytes of the raw integer, is its own inverse, and commutes with or, and, xor and and-not.",
  ["inputs"], "all 2^81 values of each bitboard operand",
  "One doc-level guarantee over 2^81 values; tests touch a few single-square boards.",
  s("bitboard"), ["Bitboard::to_u128", "Bitboard::from_u128_unchecked", "Bitboard::swap_bytes", "ByteSwappedBitboard::*"], ["Bitboard::to_u128", "ByteSwappedBitboard"])
p("C07", "Pieces, kinds and colours encode and promote consistently",
  "A piece is exactly a kind and a colour: composing and decomposing are inverse, its byte value is the kind's number plus 16 for White, and enumerations, named constants and array indices list each value exactly once in the documented order. "
  "Promotion pairs the six promotable kinds with their promoted kinds, keeps the colour, is undone by unpromotion, and is refused for every other kind; numbers convert to kinds exactly in the documented range. "
  "Flipping a colour gives the other colour.",
  ["inputs"], "all kinds, colours, pieces and all u8 values offered as a kind",
  "Tests check decomposition and the spelling of pieces but not promotion, unpromotion, named constants, numeric values or the array indices against each other.",
  s("piece", "piece_kind", "color") + ["shogi_core/build.rs"], ["Piece::new", "Piece::to_parts", "Piece::as_u8", "Piece::promote", "Piece::unpromote", "Piece::all", "PieceKind::promote", "PieceKind::unpromote", "PieceKind::from_u8", "PieceKind::array_index", "Color::flip", "Color::array_index"], ["Piece", "PieceKind", "Color"])
p("C08", "A hand is seven independent counters",
  "A hand counts each of the seven hand kinds independently: adding one raises only that counter by one (modulo 256), removing one lowers only that counter by one and is refused exactly when it is zero. "
  "Kinds that cannot be held (kings and promoted pieces) are refused by adding, removing and counting alike. "
  "The set of kinds that can be held, its enumeration and its size agree, two hands are equal exactly when all seven counters are, and a refused operation changes nothing.",
  ["inputs", "histories"], "every hand (2^56 counter values), every kind, one operation from any of them",
  "Only doc examples with counts of zero, one or two exist; the interaction of seven counters and their extremes are not reached.",
  s("hand"), ["Hand::new", "Hand::added", "Hand::removed", "Hand::count", "Hand::is_hand_piece", "Hand::all_hand_pieces", "Hand_add", "Hand_remove", "Hand_count"], ["Hand"])
p("C09", "Compact moves lose no information",
  "Every move converts to a compact move and back unchanged, and distinct moves have distinct compact forms. "
  "The compact form's own constructors and accessors (origin, destination, promotion flag, drop flag) agree with the move's, and its bits are the documented layout used from C.",
  ["inputs"], "every normal move (from, to, promote, including from = to) and every drop of any piece on any square",
  "The tests cover conversion there and back, but not the numeric layout, injectivity, or the accessors of the two types against each other.",
  s("mv"), ["CompactMove::from(Move)", "Move::from(CompactMove)", "CompactMove::normal", "CompactMove::drop", "CompactMove::from", "CompactMove::to", "CompactMove::is_promoting", "CompactMove::is_drop", "Move::from", "Move::to", "Move::is_promoting", "Move::is_drop"], ["Move", "CompactMove"])
p("C10", "C bridge types are lossless optional values",
  "Each one-value bridge type for C (optional square, piece, piece kind, compact move, game resolution; result with an illegal-move kind) converts to the Rust optional or result and back without loss: zero is None (or Ok), and any other value is the number of the contained value. "
  "Their defaults, where provided, are the empty value, and numbers convert to illegal-move kinds exactly in 1..=7.",
  ["inputs"], "every value of every bridged type, and None",
  "Tests check the default and sizes for some of the types; the conversions of most values are not tested.",
  s("square", "piece", "piece_kind", "mv", "game_resolution", "illegal_move_kind"), ["OptionSquare", "OptionPiece", "OptionPieceKind", "OptionCompactMove", "OptionGameResolution", "ResultUnitIllegalMoveKind", "IllegalMoveKind::from_u8"], ["c_compat::*"])
p("C11", "All views of a board agree after every change",
  "After placing or removing any piece on any square and after any accepted move, starting from any consistent position, the per-square view, the per-piece, per-kind and per-player bitboards and the occupied and vacant bitboards describe the same board: a square is in a piece's bitboard exactly when that piece stands on it. "
  "Player bitboards are disjoint, kind bitboards are disjoint, and occupied and vacant partition the 81 squares.",
  ["inputs", "histories"], "every consistent board of 81 squares, every piece or none placed on any square, every move; by induction any history of such steps",
  "Tests follow one short game and never compare bitboards with the board; stale bits only show on captures, promotions or overwrites of particular squares.",
  s("position"), ["PartialPosition::piece_set", "PartialPosition::make_move", "PartialPosition::piece_at", "PartialPosition::piece_bitboard", "PartialPosition::piece_kind_bitboard", "PartialPosition::player_bitboard", "PartialPosition::occupied_bitboard", "PartialPosition::vacant_bitboard"], ["PartialPosition::piece_set", "PartialPosition::make_move"])
p("C12", "The reported king position is where the king stands",
  "For either player with at most one king on the board, the reported king position is the square of that king, and nothing when that player has no king. "
  "This holds after any placement, removal or replacement of pieces and after any accepted move, whatever order they came in.",
  ["inputs", "histories"], "every consistent board, every placement or removal on any square, every move; by induction any history",
  "No test looks at the king position; a stale value needs a king to be removed, replaced or moved in a particular order.",
  s("position"), ["PartialPosition::king_position", "PartialPosition::piece_set", "PartialPosition::make_move"], ["PartialPosition::king_position"])
p("C13", "A move is accepted exactly when it makes sense",
  "A normal move is accepted exactly when a piece of the side to move stands on its origin, the promotion asked for exists for that piece, and its destination is empty or holds a capturable (non-king) piece of the opponent. "
  "A drop is accepted exactly when the piece belongs to the side to move, is unpromoted and held at least once in that side's hand, and its destination is empty. Nothing else (ply, last move, other squares, hand counts above the needed one) matters.",
  ["inputs"], "every consistent position (any 81-square board with at most one king a side, any hands, side, ply and last move) and every move",
  "The tests try a few legal moves and no rejected one; the acceptance condition ranges over all positions and 15,390 moves.",
  s("position"), ["PartialPosition::make_move", "PartialPosition::make_compact_move"], ["PartialPosition::make_move"])
p("C14", "A rejected move leaves the position untouched",
  "When a move is not accepted, the position is exactly what it was: board, hands, side to move, ply, last move, king positions and every bitboard. "
  "The same holds for a full position with its move history.",
  ["inputs"], "every consistent position and every move that is rejected",
  "No test makes a rejected move; a partial update before a late refusal (for instance in the middle of a capture) needs a specific position.",
  s("position"), ["PartialPosition::make_move", "Position::make_move"], ["PartialPosition::make_move", "Position::make_move"])
p("C15", "An accepted move has exactly its effect and no other",
  "An accepted normal move empties its origin, puts the piece (promoted if asked) on its destination and, on a capture, adds exactly one unpromoted captured piece to the mover's hand; an accepted drop puts the piece on its square and takes exactly one from the mover's hand. "
  "The side to move flips, the ply grows by one (modulo 65536) and the last move becomes this move; every other square, hand counter and datum is unchanged.",
  ["inputs"], "every consistent position and every accepted move; every other square and counter observed",
  "Tests follow one short game; promotion with capture, captures of promoted pieces, and side effects on unrelated squares are not sampled.",
  s("position"), ["PartialPosition::make_move"], ["PartialPosition::make_move"])
p("C16", "Moves conserve the set of pieces",
  "Counting board and both hands together and ignoring owner and promotion, an accepted move never creates or destroys a piece of any kind (as long as no hand counter is at its maximum). "
  "The number of kings of each player never changes.",
  ["inputs", "histories"], "every consistent position and every accepted move; by induction any history of moves",
  "Requires summing over the whole board for arbitrary positions; no test counts pieces.",
  s("position", "hand"), ["PartialPosition::make_move", "Hand::added", "Hand::removed"], ["PartialPosition::make_move"])
p("C17", "A position with history is its initial position plus its moves",
  "A full position always keeps its initial position unchanged, lists exactly the accepted moves in order, and its current position is the one reached by playing those moves from the initial one. "
  "All its accessors report what the current position reports, and a rejected move is not recorded.",
  ["inputs", "histories"], "every initial position, every sequence of moves (accepted or rejected) within the bound on its length, after short and long histories",
  "The tests never look at the move list or the initial position after moves.",
  s("position"), ["Position::arbitrary_position", "Position::startpos", "Position::make_move", "Position::make_compact_move", "Position::moves", "Position::initial_position", "Position::inner"], ["Position::make_move"])
p("C18", "The SFEN board field spells exactly the board",
  "For every board, the first SFEN field consists of nine ranks separated by slashes, from the first rank to the ninth and each from file 9 to file 1; read back, it gives exactly the pieces on the board. "
  "It is canonical: runs of empty squares are written as one digit 1 to 9, never zero, never two digits in a row, and promoted pieces as a plus sign and the letter.",
  ["inputs"], "all boards: each of 81 squares empty or one of 28 pieces",
  "Tests compare two or three fixed strings; 29^81 boards.",
  s("position", "piece", "common"), ["PartialPosition::to_sfen", "Piece::to_usi"], ["PartialPosition::to_sfen"])
p("C19", "The SFEN side, hand and ply fields spell exactly the state",
  "The remaining SFEN fields, each preceded by one space, are the side to move (b or w), the hands, and the ply in decimal without leading zeros. "
  "The hands are '-' when both are empty; otherwise Black's then White's pieces in the order rook, bishop, gold, silver, knight, lance, pawn, omitting counts of zero, writing counts of two or more in decimal before the letter and no count for one.",
  ["inputs"], "every pair of hands (all counter values 0..=255), both sides, every ply",
  "Tests see one position with hands, with counts of at most one.",
  s("position", "hand", "common", "color"), ["PartialPosition::to_sfen", "ToUsi for [Hand; 2]", "ToUsi for Color"], ["PartialPosition::to_sfen", "<[Hand; 2] as ToUsi>::to_usi"])
p("C20", "USI tokens are exact and unambiguous",
  "Every square, colour, piece kind, piece, move and compact move is written as its USI token: file digit and rank letter; letter with plus sign when promoted and lower case for White; origin, destination and plus sign for normal moves; upper-case letter, asterisk and square for drops. "
  "A move and its compact form are written identically, and the owned string equals what is written to a sink.",
  ["inputs"], "every square, colour, kind, piece and every move",
  "Pieces and squares are tested by enumeration, but moves and compact moves are not tested at all.",
  s("square", "piece", "piece_kind", "mv", "color", "to_usi"), ["ToUsi for Square", "ToUsi for Piece", "ToUsi for PieceKind", "ToUsi for Move", "ToUsi for CompactMove", "ToUsi::to_usi_owned"], ["ToUsi::to_usi"])
p("C21", "Writers fail exactly when the sink fails",
  "Writing a position, hands, a move or any token reports an error exactly when the sink refused a write. "
  "What the sink received before its failure is a prefix of the full text, and nothing is written after the failure.",
  ["inputs", "fault_sequences"], "every value written and every point at which the sink starts to fail",
  "All tests write to strings, which never fail; a swallowed error needs a fault at a particular write.",
  s("position", "hand", "piece", "piece_kind", "square", "mv", "common", "color"), ["PartialPosition::to_sfen", "ToUsi::to_usi"], ["PartialPosition::to_sfen", "ToUsi::to_usi"])
p("C22", "C and owned SFEN text equal the written text and fit the promised buffer",
  "The text stored through the C interface is the text written to a sink followed by exactly one NUL byte, with nothing stored beyond it, and the owned string is the same text, for partial and full positions. "
  "For every position made of at most a standard set of 40 pieces it needs at most the 139 bytes the interface promises.",
  ["inputs"], "representative and extreme boards combined with every hand content, side and ply; for the length bound, all boards row by row and all distributions of the standard set",
  "The C interface is exercised from one C program on one position; the maximum length is never approached.",
  s("position"), ["PartialPosition::to_sfen_c", "Position::to_sfen_c", "PartialPosition::to_sfen_owned", "Position::to_sfen_owned"], ["PartialPosition_to_sfen_c", "Position_to_sfen_c"])
p("C23", "Equality, ordering and hashing agree",
  "For every comparable type, the order is total and transitive, two values compare as equal exactly when they are equal, partial and total comparison agree, and equal values feed a hasher identically. "
  "A clone equals its original. Positions are equal exactly when side, ply, hands, board and last move are, however they were reached.",
  ["inputs", "histories"], "all pairs and triples of values of each type; for positions, arbitrary consistent positions and different orders of construction",
  "No test compares or hashes anything; the order of values is documented only through these laws.",
  s("annotated_derive", "mv", "hand", "position", "bitboard", "square", "piece", "piece_kind", "color"), ["Ord", "PartialOrd", "PartialEq", "Hash"], ["==", "cmp", "hash"])
p("C24", "Safe operations never panic or misbehave",
  "No safe operation on valid values panics, overflows, reads or writes out of bounds, or produces an invalid value, and unsafe operations do none of this when their documented preconditions hold. "
  "This includes extreme arguments: all deltas, all numbers, all bitboards, every position with any number of kings and any hands, and the ply at its maximum.",
  ["inputs"], "every safe function with every argument; unsafe functions with every argument allowed by their documentation",
  "Tests call the functions on ordinary values, and many functions rest on unchecked accesses whose violation goes unnoticed.",
  s("bitboard", "square", "piece", "piece_kind", "hand", "mv", "position", "color", "common"), ["all public functions"], ["public API"])
p("C25", "Default legality methods follow status and partial checks",
  "Whatever an implementor decides, the provided full-position methods answer that no move is legal unless the position is in progress, and otherwise exactly what the partial methods answer for the current position. "
  "Making a move through a checker plays it exactly when it is declared legal, and otherwise returns the checker's reason and leaves the position untouched.",
  ["inputs", "programs"], "every implementor behaviour (arbitrary answers, statuses and move lists within the bound) and every move",
  "There is no implementor in the repository, so no test reaches any of these methods.",
  s("legality"), ["LegalityChecker::is_legal", "LegalityChecker::is_legal_lite", "LegalityChecker::all_legal_moves", "LegalityChecker::make_move"], ["LegalityChecker"])
p("C26", "C entry points do what the Rust operations do",
  "Every exported C function returns and changes exactly what the Rust operation it stands for returns and changes, with None as zero and refusal as false. "
  "In particular a compact move is accepted by a position exactly when the move it encodes is, with the same result.",
  ["inputs"], "every argument of every exported function that has a Rust counterpart; any consistent position for the position functions",
  "One C program calls a few of them on the starting position.",
  s("bitboard", "square", "piece", "piece_kind", "hand", "mv", "position", "color"), ["Bitboard_*", "Square_*", "Piece_*", "PieceKind_*", "Hand_*", "CompactMove_*", "PartialPosition_*", "Position_*"], ["extern \"C\" functions"])
p("C27", "The freestanding memory functions match the C standard",
  "In the library built without a standard library, memory copy, fill, zero and compare do what the C standard asks, for every content and length: copying and filling change exactly the given bytes and return the destination, and comparison returns zero exactly for equal contents and otherwise has the sign of the first differing unsigned byte. "
  "Bytes outside the given range are never touched.",
  ["inputs"], "all contents, fill values, offsets and lengths within the buffer bound",
  "The functions are linked only into the no_std library, and one C test passes through them incidentally.",
  ["shogi_core_c/src/no_std.rs"], ["memcpy", "memset", "memcmp", "__bzero"], ["memcpy", "memset", "memcmp", "__bzero"])
p("C28", "The freestanding allocator hands out valid, disjoint memory",
  "Every block the no_std library's allocator hands out lies inside its arena, is at least as large and as aligned as asked, and never overlaps another block, also when calls from several threads interleave. "
  "A request is refused (null) exactly when it cannot be satisfied from the remaining space or asks for an unsupported alignment, and a refused request consumes nothing.",
  ["inputs", "schedules", "histories"], "all sizes and alignments, sequences of requests from the initial state, and interference by other threads between the atomic steps of a request",
  "No test allocates more than a handful of small blocks, and none from two threads.",
  ["shogi_core_c/src/no_std.rs"], ["SimpleAllocator::alloc", "SimpleAllocator::dealloc"], ["GlobalAlloc::alloc"])
p("C29", "A game is its position plus a settable resolution",
  "A fresh game is unresolved at the starting position; resolving stores exactly the given resolution, unresolving clears it, and neither changes the position. "
  "The C view of the resolution is the same value, with zero for unresolved.",
  ["inputs", "histories"], "every resolution and every sequence of resolve and unresolve within the bound",
  "No test uses either game type.",
  s("position", "game_resolution"), ["Game::resolve", "Game::unresolve", "Game::resolution", "PartialGame::resolve", "PartialGame::unresolve", "PartialGame::resolution"], ["Game", "PartialGame"])
p("C30", "Starting and empty positions are exactly what shogi prescribes",
  "The starting position has the standard 40 pieces on their squares for every square and every view (pieces, bitboards, kings), empty hands, Black to move, ply 1 and no last move, and is the default position. "
  "The empty position has no piece in any view, empty hands, Black to move, ply 1 and no last move.",
  ["inputs"], "every square, piece, kind and player observed in each of the two positions",
  "Tests compare the SFEN of the starting position, which shows neither bitboards nor king positions.",
  s("position"), ["PartialPosition::startpos", "PartialPosition::empty", "Position::startpos", "Default"], ["PartialPosition::startpos", "PartialPosition::empty"])
p("C31", "Setters change exactly what they name",
  "Placing a piece makes that square hold exactly that piece and leaves every other square, both hands, side, ply and last move alone; setting the side, the ply or a player's hand changes only that datum. "
  "The ply setter refuses zero and accepts every other value. Placing is order-independent: the same placements on different squares in any order give equal positions.",
  ["inputs", "histories"], "every consistent position, every square, piece, side, ply and hand",
  "Setters are used only to prepare other tests; nothing checks what they leave alone.",
  s("position"), ["PartialPosition::piece_set", "PartialPosition::side_to_move_set", "PartialPosition::ply_set", "PartialPosition::hand_of_a_player_mut", "PartialPosition::hand"], ["PartialPosition setters"])
p("C32", "The C header agrees with the exported binary interface",
  "Every function and type in the shipped C header has the name, parameters and memory layout of what the library exports.",
  ["programs"], "every declaration of the header",
  "One C program links a few of the functions.",
  ["include/shogi_core.h", "cbindgen.toml"], ["shogi_core.h"], ["shogi_core.h"])
p("C33", "The freestanding library stays small and self-contained",
  "The library built without a standard library needs no external symbols and stays within its size limit.",
  ["configurations"], "every supported build configuration",
  "A property of a linked binary on each platform.",
  ["shogi_core_c/Cargo.toml", "Cargo.toml", "shogi_core_c/src/lib.rs"], ["libshogi_core_c"], ["libshogi_core_c.so"])

out = []
for q in P:
    q = dict(q)
    fns, files = q["anchors"]["functions"], q["anchors"]["files"]
    q["anchors"] = {"files": files,
                    "mechanism": [{"name": f, "where": files[0] if len(files) == 1 else ", ".join(files)} for f in fns],
                    "observe_at": q.pop("_entry")}
    q.pop("_observe")
    out.append(q)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for q in out:
        f.write(json.dumps(q) + "\n")
print(len(out))

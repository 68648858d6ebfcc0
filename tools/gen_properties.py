#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
M, J, N = "dhara/map.c", "dhara/journal.c", "dhara/nand.h"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A sector always reads back what was last put there",
 "On healthy flash, for every sequence of map operations (write, copy_page, copy_sector, trim, clear, gc, sync, and shutdown-after-sync followed by resume), find and read of any 32-bit sector except the reserved one return exactly the data most recently written or copied to it, and a sector never written or since trimmed is reported not found and reads as all 0xff. No operation on one sector changes what any other sector returns, and on healthy flash every operation on a map below capacity succeeds.",
 ["histories", "inputs", "configurations"],
 "all operation histories over all sector addresses (dense, sparse, differing in any one bit), all page contents, all supported page/block/chip geometries and gc ratios, over many wraps of the chip including wrap of the 8-bit epoch",
 "tests/map.c runs one fixed script (200 dense sectors, one geometry, one gc ratio, no copy, no clear, no gc call, under one wrap of the chip); it never uses sparse addresses, copies, or long histories.",
 ["dhara/map.c", "dhara/map.h", "dhara/journal.c"],
 [("radix-tree lookup that also builds the new record's alt-pointers", "dhara/map.c trace_path"),
  ("delete by rewriting the closest cousin", "dhara/map.c try_delete"),
  ("relocation of live pages at the tail", "dhara/map.c raw_gc")],
 [("root", "newest record, entry point of every lookup", "dhara/journal.h struct dhara_journal"),
  ("count", "number of mapped sectors", "dhara/map.h struct dhara_map")],
 ["return values and data of dhara_map_find/read", "NAND driver calls"])

prop("C02", "A power cut rolls the map back to one whole earlier state",
 "If power is lost at any instant (before, during or after any page program or block erase, which may leave that page or block erased, complete, or unreadable), resume on the same chip succeeds once anything was synchronized and shows exactly the contents the map had after some prefix of the operations issued: never a mixture, never a half-applied write, trim, copy or clear. The prefix is no shorter than the last moment the journal reported itself clean, so no more than one checkpoint group of the most recent changes is ever lost, and the size after resume equals the number of sectors mapped in that state.",
 ["crash_points", "histories", "configurations"],
 "every NAND mutation of every operation history as a power-cut point, in each of its torn outcomes, including cuts during a resume-and-continue after an earlier cut, on chips with factory-marked bad blocks",
 "No test cuts power mid-operation; the only unsynchronized restart is the single scripted one in epoch_roll.c, and the simulator cannot represent a torn or unreadable page.",
 ["dhara/journal.c", "dhara/map.c"],
 [("checkpoint page closes each group and is written last", "dhara/journal.c push_meta"),
  ("search for the newest checkpoint", "dhara/journal.c find_checkblock, find_last_checkblock, find_last_group, find_root"),
  ("choice of the next free page after a cut", "dhara/journal.c find_head"),
  ("space up to the last persistent tail is not reused", "dhara/journal.c prepare_head, skip_block (tail_sync)")],
 [("tail_sync", "tail as of the last checkpoint: nothing after it may be erased", "dhara/journal.h"),
  ("epoch", "pass number over the chip, orders checkpoints", "dhara/journal.h")],
 ["contents read through a fresh map resumed on a copy of the chip taken at the cut"])

prop("C03", "What sync confirmed survives any later power cut",
 "Once sync returns success, every change made before it is durable: after a power cut at any later instant, a sector not changed since that sync reads exactly its synchronized content (or is still unmapped), and a sector changed since reads either its synchronized content or one of the later values. This holds however much writing, trimming, garbage collection, wrapping around the chip and re-erasing happens between the sync and the cut.",
 ["crash_points", "histories", "configurations"],
 "every history with syncs and every power-cut point after a sync, in each torn outcome, over full wraps of the chip and repeated cuts",
 "Tests only resume immediately after a sync with no intervening write or cut, so a page reused too early or a checkpoint not really complete is never observed.",
 ["dhara/map.c", "dhara/journal.c", "dhara/map.h"],
 [("sync runs gc/padding until the journal is clean", "dhara/map.c dhara_map_sync, pad_queue"),
  ("dirty flag cleared only by a completed checkpoint", "dhara/journal.c push_meta"),
  ("reuse barred by the synchronized tail", "dhara/journal.c prepare_head, dhara_journal_dequeue")],
 [("flags DIRTY", "something is not yet persistent", "dhara/journal.h")],
 ["contents read through a fresh map resumed on a copy of the chip taken at the cut"])

prop("C04", "Blocks that go bad in service lose no data",
 "If blocks fail to program or erase while in use (with a bounded share of the chip failing and runs of adjacent bad blocks shorter than the retry limit), every map operation still succeeds, all data accepted so far keeps reading back exactly, and the size stays exact; this includes a block failing in any position of the block, on a data page or on a checkpoint page, several blocks failing in a row, and further failures during relocation. No block is marked bad while anything in it is still needed. After a following sync and restart the contents are still the same.",
 ["fault_sequences", "histories", "configurations"],
 "every sequence of program/erase failures at any NAND operation of any history, for each possible content of the failed page (unreadable, unprogrammed, readable), within the stated failure density, for all supported geometries",
 "recovery.c scripts nine single-geometry failure patterns on the journal only; map.c uses a few random timebombs; neither places the failure at every position nor makes a failed page unreadable, and only one geometry (4-page groups) is built.",
 ["dhara/journal.c", "dhara/map.c"],
 [("failed write starts assisted recovery, buffered metadata is dumped first", "dhara/journal.c recover_from, dump_meta, restart_recovery, finish_recovery"),
  ("map relocates every live page of the failed block then pads to a checkpoint", "dhara/map.c try_recover, raw_gc, pad_queue")],
 [("recover_root/recover_next/recover_meta", "range being relocated and where its buffered metadata was dumped", "dhara/journal.h")],
 ["return values and contents through the map API; NAND driver calls"])

prop("C05", "Failing blocks and power cuts together still lose nothing synced",
 "If blocks go bad in service and power is also lost at any instant, including while data is being relocated off a failing block, resume succeeds and shows exactly the contents after some prefix of the operations, no shorter than the last successful sync. The map then remains usable for reading and writing.",
 ["crash_points", "fault_sequences", "histories"],
 "every power-cut point of every history with in-service program/erase failures, including cuts inside the relocation of a failed block",
 "No test combines a block failure with a restart that was not preceded by a sync; the relocation window is never interrupted.",
 ["dhara/journal.c", "dhara/map.c"],
 [("failed block keeps its data and is marked bad only after relocation completes", "dhara/journal.c finish_recovery, restart_recovery"),
  ("synchronized tail is frozen during recovery", "dhara/journal.c push_meta, dhara_journal_dequeue")],
 [("flags RECOVERY/ENUM_DONE", "relocation in progress / all pages enumerated", "dhara/journal.h")],
 ["contents read through a fresh map resumed on a copy of the chip taken at the cut"])

prop("C06", "The NAND driver is only ever called within its contract",
 "In every history, with or without failures, power cuts and restarts: pages of a block are programmed only in increasing order, each at most once per erase and only after the block was erased; no block marked bad is ever erased or programmed; every block, page, offset and length passed to the driver is in range. Only blocks whose program or erase actually failed are ever marked bad.",
 ["histories", "fault_sequences", "crash_points", "configurations"],
 "all driver calls of all histories with factory-bad blocks, in-service failures, power cuts, restarts, every geometry",
 "The test simulator aborts on some contract breaches but sees only the one geometry and the few scripted histories, never a restart after a torn write, and does not check reprogramming after restart or who gets marked bad.",
 ["dhara/journal.c", "dhara/nand.h"],
 [("erase on entry to a block, skip of bad blocks", "dhara/journal.c prepare_head, skip_block"),
  ("resume starts at a really free page", "dhara/journal.c find_head, cp_free"),
  ("bad marking", "dhara/journal.c recover_from, restart_recovery, dump_meta, finish_recovery")],
 [("head", "next page to program", "dhara/journal.h")],
 ["every dhara_nand_* call"])

prop("C07", "The advertised capacity is usable, forever",
 "On a chip whose bad blocks stay within the design margin, a map accepts new sectors until its size reaches the capacity it reports, answers one more with 'map full' and only then, and at that fill level keeps accepting rewrites, copies, trims, gc and syncs in any pattern without ever failing for lack of space or making no progress; trimmed space is usable again. The reported capacity is at least the documented share gc_ratio/(gc_ratio+1) of the usable pages less the documented safety margin; as blocks go bad it shrinks by no more than their share, and it counts neither on a bad block which the present pass over the chip has already gone by, as of the last checkpoint, nor, once the ring has come round, on any block known to be bad by then.",
 ["histories", "configurations"],
 "all write/trim/sync patterns at and around full capacity (including adversarial garbage placement), for all gc ratios and geometries, over many wraps of the chip",
 "tests/map.c fills to well under capacity and never wraps at capacity; no test reaches 'map full' or sustained rewriting of a full map.",
 ["dhara/map.c", "dhara/journal.c"],
 [("capacity formula with reserve and safety margin", "dhara/map.c dhara_map_capacity; dhara/journal.c dhara_journal_capacity"),
  ("automatic collection of gc_ratio+1 pages per write when crowded", "dhara/map.c auto_gc, prepare_write")],
 [("bb_current/bb_last", "bad-block estimates feeding the capacity", "dhara/journal.h")],
 ["return codes of map operations, capacity and size"])

prop("C08", "Wear is levelled: erase counts differ by at most one",
 "At every moment of any history without power loss (clean restarts allowed), the numbers of times any two good blocks have been erased since the chip was first used differ by at most one, whatever the access pattern, fill level, bad blocks or gc activity. Each power loss adds at most one extra erase to one block.",
 ["histories", "configurations", "fault_sequences"],
 "all access patterns (hot-spot, sequential, trim-heavy, sync-heavy), geometries, factory-bad and in-service failing blocks, power losses",
 "No test looks at per-block erase counts.",
 ["dhara/journal.c", "README"],
 [("head only ever advances to the next block of the ring, one erase on entry", "dhara/journal.c next_block, skip_block, prepare_head, next_upage"),
  ("head resumes where it was", "dhara/journal.c find_head")],
 [("head", "ring position", "dhara/journal.h")],
 ["dhara_nand_erase calls counted per block"])

prop("C09", "Every operation costs at most logarithmically many NAND accesses",
 "On healthy chips with evenly spread factory-bad blocks, and sector numbers within the chip size, the number of NAND accesses made by one find, read, write, copy, trim, gc or resume call is bounded by a small multiple of the logarithm of the chip size (times the configured gc ratio for writes; plus a term in pages per block for resume), independent of how many sectors are mapped or how much garbage there is. init, size, capacity and clear access the NAND not at all, sync of a map with nothing to save neither, and any other sync is bounded by the length of the queue.",
 ["histories", "inputs", "configurations"],
 "all histories and fill levels; chips up to tens of thousands of blocks; worst call, not average",
 "Tests print total operation counts but assert nothing about the cost of any one call, and use only a 113-block chip.",
 ["dhara/map.c", "dhara/journal.c", "README"],
 [("radix tree of fixed depth", "dhara/map.c trace_path"),
  ("binary search on resume", "dhara/journal.c find_last_checkblock, find_last_group")],
 [], ["number of dhara_nand_* calls per API call"])

prop("C10", "The reported size is exactly the number of mapped sectors",
 "After every map operation, successful or failed, size equals the number of sectors for which find succeeds: rewriting, trimming an absent sector, copying onto an existing sector, refused writes, retries after a block failure and garbage collection do not change it. The same holds after every resume, clean or after a power cut.",
 ["histories", "fault_sequences", "crash_points"],
 "all histories of operations, refusals, in-service failures and restarts",
 "map.c checks the count against a tree walk only for its own script; never with refusals, copies, clear, or a restart that was not preceded by sync.",
 ["dhara/map.c", "dhara/map.h"],
 [("count stored in the checkpoint cookie before each enqueue", "dhara/map.c ck_set_count callers"),
  ("count rolled back when an enqueue has to be retried", "dhara/map.c dhara_map_write, dhara_map_copy_page")],
 [("count / cookie", "live and persisted number of sectors", "dhara/map.h, checkpoint cookie")],
 ["dhara_map_size versus dhara_map_find over all touched sectors"])

prop("C11", "Starting up is read-only, repeatable and safe on an unused chip",
 "init performs no NAND access and resume never programs, erases or marks anything, so resuming any number of times in a row, with a new object or in place of whatever the object held before, gives the same contents, size, capacity and next behaviour, also after earlier attempts met read errors. On a chip holding no map (fresh, erased, filled with foreign or unreadable data, with factory-bad blocks) resume reports failure and leaves a working empty map; on a chip that holds a map (and on which some of any eight neighbouring blocks are usable) it succeeds and never falls back to an empty or older one than that of the last completed checkpoint.",
 ["configurations", "histories", "crash_points"],
 "all chip contents left by any history, clean or cut, and all kinds of unused chip, for chips of any size and with bad blocks at the start, end and middle",
 "Tests resume once per scripted state and do not check that resume leaves the chip untouched or what happens on foreign content.",
 ["dhara/journal.c", "dhara/map.c"],
 [("checkpoint search", "dhara/journal.c dhara_journal_resume and helpers"),
  ("fallback to an empty journal", "dhara/journal.c reset_journal; dhara/map.c dhara_map_resume")],
 [("epoch, tail, head, root", "state rebuilt from flash", "dhara/journal.h")],
 ["NAND calls during init/resume; contents after one and after several resumes"])

prop("C12", "Garbage collection changes nothing visible and always frees garbage",
 "A gc call, explicit or automatic, at any point of any history never changes the content, mapping or count of any sector. Repeating gc removes all garbage: after at most as many gc steps as the journal holds pages, the journal is no longer than the live sectors plus a small constant, and on a map with no garbage gc keeps it that way without losing the only copy of anything.",
 ["histories", "configurations"],
 "all histories, garbage layouts, geometries and gc call placements, including gc on an empty, single-sector or full map",
 "No test calls gc directly or checks what it reclaims.",
 ["dhara/map.c", "dhara/journal.c", "map_internals.txt"],
 [("relocate the oldest page only if it is the current version, then drop it", "dhara/map.c raw_gc, dhara_map_gc"),
  ("tail advance over bad blocks and checkpoints", "dhara/journal.c dhara_journal_peek, dhara_journal_dequeue")],
 [("tail", "oldest page of the queue", "dhara/journal.h")],
 ["contents and size before/after gc; dhara_journal_size"])

prop("C13", "An operation that fails changes nothing and says why",
 "When a map operation returns an error (an uncorrectable read error at any NAND read or copy it makes, a full map, or more bad blocks in a row than the library looks past), the error code is the documented one for the cause, the content and count of every sector are as before the call, and once reads work again (or enough attempts have moved past the bad blocks, unless a block failed half-written right in front of them) the same call succeeds. Calls return 0 or -1 and nothing else. Passing no error pointer is accepted everywhere and an unreadable page is never returned as successful data.",
 ["fault_sequences", "histories"],
 "an uncorrectable error at each single NAND read/copy of each operation of all histories; refusals at capacity",
 "The test simulator never fails a read; no error path of the map other than block failure is executed.",
 ["dhara/map.c", "dhara/journal.c", "dhara/error.h"],
 [("error propagation with restore of the count", "dhara/map.c prepare_write, dhara_map_write, dhara_map_copy_page, try_delete, raw_gc"),
  ("NULL-tolerant error reporting", "dhara/error.h dhara_set_error")],
 [], ["return value, error code, and contents after a failed call"])

prop("C14", "What is on flash follows the documented format",
 "Every checkpoint written has the documented layout (little-endian header with magic, epoch, tail and bad-block counts; the sector count; one metadata slot per user page holding its sector and 32 alternate pointers) at the last page of each group of the documented size, and an independent reader following only the documentation reconstructs from the raw chip exactly the synchronized contents; each alternate pointer reachable from the root is empty or names the newest record sharing that prefix. Chips written by earlier versions of this format still resume with all their contents.",
 ["histories", "configurations"],
 "all synchronized states of all histories and geometries, over wraps of the chip and of the epoch; stored images of the present version",
 "Tests only read flash back through the same code that wrote it, so a symmetric change of format passes.",
 ["dhara/journal.c", "dhara/map.c", "dhara/bytes.h", "map_internals.txt"],
 [("header and metadata encoding", "dhara/journal.c hdr_*; dhara/map.c meta_*, ck_*; dhara/bytes.h"),
  ("group size", "dhara/journal.c choose_ppc")],
 [], ["raw page contents of the chip"])

prop("C15", "The journal is a faithful persistent queue",
 "Pages leave the journal in the order they were enqueued or copied in, each with exactly its own data and metadata, none lost, duplicated or reordered (only blank filler may be interleaved), and the newest page is always the reported root. After a restart, clean or by power cut, the queue and its cookie are exactly as of the most recent completed checkpoint; a dequeue or clear not followed by a checkpoint is undone, everything checkpointed is present. (Pages dequeued while nothing new is queued since the last checkpoint may be reused at once; a restart may bring them back or not, but never misplaces the others.)",
 ["histories", "crash_points", "configurations"],
 "all enqueue/copy/peek/dequeue/clear/restart histories on all geometries, over wraps, and all power-cut points",
 "journal.c and jfill.c run fixed fill/drain loops on one geometry and resume only at a clean point.",
 ["dhara/journal.c", "dhara/journal.h"],
 [("enqueue/copy with buffered metadata and group checkpoint", "dhara/journal.c dhara_journal_enqueue, dhara_journal_copy, push_meta"),
  ("tail handling", "dhara/journal.c dhara_journal_peek, dhara_journal_dequeue"),
  ("metadata lookup in buffer or checkpoint page", "dhara/journal.c dhara_journal_read_meta")],
 [("head/tail/root", "queue ends", "dhara/journal.h")],
 ["journal API results; fresh journal resumed on a copy of the chip"])

prop("C16", "The journal never overwrites what it still holds",
 "However far the journal is filled, an enqueue either succeeds or fails with 'journal full', never disturbing any queued page nor anything the last checkpoint still refers to; it fails only when the next block on the ring still holds such pages, and after a restart or checkpoint, draining makes room again. The reported size is never less than the number of pages queued, nor of those queued together with those the last checkpoint still needs, no more pages than the reported capacity plus one block can be queued, and an emptied, checkpointed journal on a chip whose bad blocks are within the estimate accepts at least the reported capacity, which counts neither on bad blocks the present pass has gone by, as of the last checkpoint, nor, once the ring has come round, on blocks known to be bad by then. If a block fails while there is no room to recover from it, the queued pages stay readable and further attempts write nothing.",
 ["histories", "configurations", "crash_points"],
 "all fill/drain/checkpoint histories up to and at full, all geometries including tiny chips, bad blocks around the ends of the journal",
 "jfill.c fills one chip geometry and drains it completely; it does not restart at full, nor check the limits from both sides.",
 ["dhara/journal.c", "dhara/journal.h"],
 [("refusal to roll onto the synchronized tail's block", "dhara/journal.c prepare_head, skip_block"),
  ("size and capacity", "dhara/journal.c dhara_journal_size, dhara_journal_capacity")],
 [("tail_sync", "limit for reuse", "dhara/journal.h")],
 ["journal API results, erase calls"])

prop("C17", "Assisted recovery hands back every page of a failed block",
 "When an enqueue or copy reports that recovery is required, repeatedly asking for the next recoverable page yields every queued page of the failed block, each still readable with its own data and metadata, before recovery ends; recovery ends by itself at a checkpoint after all were handed out, after which the failed block is marked bad, which no block is while recovery still needs it. The user may write any of them again, by copying or as new pages, or none. A failure during recovery restarts it with nothing skipped, and after it ends all pages rewritten are in the queue with exact data and metadata. Outside recovery there is never a page to recover.",
 ["fault_sequences", "histories", "configurations"],
 "failures at every page position of a block, of every length of cascade up to the retry limit, including on the page where metadata was dumped, for all group sizes",
 "recovery.c covers nine hand-written patterns on one geometry and checks only the final order.",
 ["dhara/journal.c", "dhara/journal.h"],
 [("enumeration and restart", "dhara/journal.c dhara_journal_next_recoverable, restart_recovery, recover_from"),
  ("dump of buffered metadata", "dhara/journal.c dump_meta, dhara_journal_read_meta"),
  ("end of recovery", "dhara/journal.c finish_recovery, push_meta")],
 [("recover_*", "recovery cursor", "dhara/journal.h")],
 ["journal API results and driver calls during recovery"])

prop("C18", "No undefined behaviour or stray memory access anywhere",
 "For every history of API calls within the documented preconditions, on every supported geometry and with faults and power cuts, the library makes no out-of-bounds, misaligned or uninitialised-data-dependent access and no other undefined operation: it touches only the map or journal object, the one-page buffer given at init and the one-page buffers passed to a call, and never writes to the caller's input data. The same holds for the ECC and checksum routines for every permitted chunk length.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all histories, geometries, fault placements and chunk lengths, with buffers of exactly the documented size",
 "Tests run without sanitizers, on oversized or stack buffers, and on one geometry.",
 ["dhara/map.c", "dhara/journal.c", "dhara/bytes.h", "dhara/error.c", "ecc/bch.c", "ecc/hamming.c", "ecc/crc32.c", "ecc/gf13.h"],
 [("metadata slots sized to the page", "dhara/journal.c choose_ppc, hdr_user_offset, hdr_clear_user"),
  ("range guards in repair", "ecc/hamming.c hamming_repair; ecc/bch.c bch_repair, poly_add")],
 [], ["AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer reports"])

prop("C19", "Separate maps on separate chips are fully independent",
 "Any number of maps, journals and ECC computations over distinct chips and buffers may be used interleaved or from different threads at once, and each behaves, call by call and NAND access by NAND access, exactly as if it were alone.",
 ["schedules", "histories"],
 "all interleavings of histories on separate instances, in one thread or several",
 "Every test uses a single instance in a single thread.",
 ["dhara/map.c", "dhara/journal.c", "ecc/bch.c", "ecc/hamming.c", "ecc/crc32.c"],
 [("all state lives in the caller's objects", "dhara/map.h struct dhara_map; dhara/journal.h struct dhara_journal")],
 [], ["ThreadSanitizer reports; NAND call traces alone versus interleaved"])

prop("C20", "BCH repairs every error pattern up to its strength",
 "For each of the 1-, 2-, 3- and 4-bit codes, every data chunk of every permitted length, and every choice of up to that many flipped bits anywhere in the chunk and its ECC bytes, repair restores the chunk exactly and verification passes afterwards; the ECC bits themselves (not the unused padding bits of the last ECC byte) are restored too. Repair of an undamaged chunk changes nothing.",
 ["inputs", "configurations"],
 "all chunk lengths from 1 to the maximum, all contents, all error positions and multiplicities up to the code strength, in both builds of the field arithmetic",
 "bch.c tests 11 blocks of one length (512) with 20 random error patterns each, and repair results in the ECC bytes are not compared.",
 ["ecc/bch.c", "ecc/bch.h", "ecc/gf13.h"],
 [("syndromes, Berlekamp-Massey, root search", "ecc/bch.c bch_repair, berlekamp_massey, syndrome")],
 [], ["chunk and ECC bytes after repair"])

prop("C21", "BCH check bytes are the documented code and detect damage",
 "Generated ECC bytes equal the remainder of the inverted chunk under the code's generator polynomial (which vanishes at the required consecutive powers of the field generator), in the documented inverted byte layout and length; an erased chunk with erased ECC verifies. Verification accepts an intact chunk and rejects every chunk-plus-ECC differing from a valid one in 1 up to twice the code strength covered bits, and neither generate nor verify changes the chunk.",
 ["inputs", "configurations"],
 "all chunk lengths, contents, and error patterns up to twice the strength, for the four codes",
 "Tests only check verify against generate (both could change together) and only with as many errors as can be repaired.",
 ["ecc/bch.c", "ecc/bch.h", "tools/gftool.c"],
 [("polynomial remainder and packing", "ecc/bch.c chunk_remainder, pack_poly, unpack_poly"),
  ("code tables", "ecc/bch.c bch_1bit..bch_4bit")],
 [], ["ECC bytes and verify results"])

prop("C22", "Hamming ECC corrects every single and detects every double error",
 "For every chunk of 1 to 512 bytes: an intact or erased chunk with its ECC gives a zero syndrome; any single flipped bit in chunk or ECC gives a non-zero syndrome and repair succeeds with the chunk exactly restored; any two flipped bits in chunk and ECC give a non-zero syndrome that repair reports as uncorrectable, leaving the chunk untouched.",
 ["inputs", "configurations"],
 "all chunk lengths, contents, single-bit and two-bit error positions in chunk and ECC",
 "hamming.c tests 11 chunks of one length with 20 random single-bit errors; double errors and other lengths are never tested.",
 ["ecc/hamming.c", "ecc/hamming.h"],
 [("row/column parity pairs", "ecc/hamming.c parity_scan"),
  ("syndrome decoding", "ecc/hamming.c hamming_repair")],
 [], ["syndrome, repair result, chunk after repair"])

prop("C23", "The page checksum is the documented CRC-32, chainable",
 "For every block and carry the checksum equals the IEEE 802.3 CRC with inverted coefficient representation as documented: computing a block in any number of consecutive pieces with the carry gives the same result as in one go, and an erased block from the initial value gives all ones. Any 1 to 3 flipped bits within 4096-bit messages, and any single burst of up to 32 bits, change the checksum.",
 ["inputs"],
 "all block lengths and contents, all carries and splits, all 1-3 bit errors and bursts",
 "crc32.c checks that 200 random 4-bit errors change the value, never the value itself or the carry.",
 ["ecc/crc32.c", "ecc/crc32.h", "tools/gentab.c"],
 [("table-driven update", "ecc/crc32.c crc32_nand, reduce")],
 [], ["returned checksum"])

prop("C24", "GF(2^13) arithmetic is a field, the same with and without tables",
 "Multiplication, division, and multiplication and division by the generator agree, for all permitted (non-zero) operands, with polynomial arithmetic modulo x^13+x^4+x^3+x+1, in both the table-driven and the table-free build; the logarithm and exponential tables are inverse to each other. The ECC results of the two builds are identical for all inputs.",
 ["inputs", "configurations"],
 "all pairs of field elements; both builds",
 "Only a few field products are touched by bch.c and the table-free build is never compiled by the tests.",
 ["ecc/gf13.c", "ecc/gf13.h"],
 [("log/exp tables and wrap", "ecc/gf13.h gf13_mul, gf13_div, gf13_mulx, gf13_divx"),
  ("shift-and-add fallback", "ecc/gf13.c under GF13_NO_TABLES")],
 [], ["results of the gf13_* functions"])

prop("C25", "The table tools print what the shipped tables contain",
 "gentab prints the byte-wise reduction table of the given reflected polynomial (for the CRC-32 polynomial, exactly the shipped table); gftool prints the exponential and logarithm tables of the given field (for 0x201b, exactly the shipped ones), the BCH generator with the requested roots (exactly the shipped generators for 2, 4, 6 and 8 roots) and, when searching, exactly the primitive polynomials of the degree. They reject unusable arguments (too few, a polynomial that is not hexadecimal or of degree 0 or above 16, a syndrome count or search degree out of range, a generator that would not fit 63 bits) with a failure exit and without crashing.",
 ["inputs"],
 "all polynomials that define a field of degree 2 to 16, syndrome counts, degrees and malformed arguments",
 "The tools are built but no test runs them.",
 ["tools/gftool.c", "tools/gentab.c", "ecc/gf13.c", "ecc/crc32.c", "ecc/bch.c"],
 [("table generation", "tools/gftool.c gf_init, gf_dump; tools/gentab.c fill_table"),
  ("generator search", "tools/gftool.c bch_generator, minimal, is_primitive")],
 [], ["standard output and exit status of the tools"])

prop("C26", "Every error value has a usable message",
 "For any integer value passed as an error code, the message function returns a non-empty, stable string without reading outside its table; each documented error code has its own distinct message and every other value yields the generic one.",
 ["inputs"],
 "all int values, with emphasis on negative and just-out-of-range ones",
 "error.c loops over the valid codes only and checks that the pointer is non-null.",
 ["dhara/error.c", "dhara/error.h"],
 [("range-checked lookup", "dhara/error.c dhara_strerror")],
 [], ["returned string"])

prop("C27", "Drivers may use the latitude the documentation gives them",
 "All guarantees (contents, atomic rollback, sync durability, driver contract) hold equally when is_free can only test for all-0xff content, with programming an all-0xff page being a no-op, and pages of all 0xff (or of any other content, such as copies of checkpoint pages) are written; when copy is done inside the chip; and when partial reads return only the bytes asked for.",
 ["configurations", "histories", "crash_points"],
 "all histories with all-0xff and checkpoint-like user data on drivers with a content-based is_free, with power cuts at every point",
 "The test simulator has an exact is_free, never loses power, and writes only pseudo-random data.",
 ["dhara/journal.c", "dhara/nand.h", "README"],
 [("whole-group free test", "dhara/journal.c cp_free, find_last_group"),
  ("trailing-free count", "dhara/journal.c find_head")],
 [], ["contents through a fresh map resumed on a copy of the chip; driver calls"])

prop("C28", "After power cuts the map stays fully operable",
 "After any number of power cuts at any instants, including many in a row with little or no progress in between, the resumed map keeps accepting reads, writes, trims, gc and syncs indefinitely: no operation fails or stops making progress because of pages left half-written by a cut, and space lost to cuts is recovered.",
 ["crash_points", "histories", "fault_sequences"],
 "all sequences of power cuts in all torn outcomes followed by workloads long enough for the whole chip to be reused several times",
 "No test continues a workload after a power cut for longer than two writes.",
 ["dhara/journal.c", "dhara/map.c"],
 [("resume positions head past half-written groups", "dhara/journal.c find_head"),
  ("collection passes over groups that were never completed", "dhara/map.c raw_gc; dhara/journal.c dhara_journal_read_meta")],
 [], ["return codes and contents after a cut over several wraps of the chip"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

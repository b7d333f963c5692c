L = 'heclib/heclib_c/src/Internal/'
U = 'heclib/heclib_c/src/Public/'
P = []


def prop(**k):
    P.append(k)


prop(id='C01', title='The multi-user file lock is given back on every way out',
     statement='When a library call takes the inter-process lock of a DSS file, it has released that lock by the time it returns to the caller, whether it succeeds, finds nothing, or fails at any step (storage error, out of memory, inconsistent file). '
               'Only a handle that is deliberately left in exclusive access may keep its lock. Releasing the lock in multi-user access really drops the operating system lock and the handle\'s record of it.',
     over=['inputs', 'fault_sequences', 'histories'], qtext='every path through every operation that locks, including each storage or allocation failure',
     why='A leaked lock shows only when some step after the acquisition fails or in a second process; the tests run one process on healthy disks and reach almost none of the error exits.',
     files=[L + 'zlockActive.c', L + 'zwriteInternal.c', L + 'ztsStoreReg7.c', L + 'zdeleteInternal.c', U + 'zrename.c', L + 'zreclaimSet.c'],
     mech=[('lock/unlock pairing', 'each caller of zlockActive'), ('OS lock', 'heclib/heclib_c/src/System/zlockdss.c')],
     check='c01_lock_release.py', technique='path-sensitive typestate dataflow (property simulation) over LLVM IR',
     note='Every path of every function that acquires the lock, with calling contexts; nested helper functions are inlined or summarised. Trusts the IR dump, C library contracts, and that no code is reached through callbacks the program does not contain.')

prop(id='C02', title='Files are changed only under the lock and from fresh header data',
     statement='No data reaches a DSS file except through the one write routine, which refuses to write when the handle does not hold the file lock. '
               'Taking the lock in multi-user access succeeds only if the operating system lock was really obtained and, when asked for, the file header was read again afterwards. '
               'An operation that locks the file does its index look-ups and its writes while the lock is held, and none of its steps gives the lock back early.',
     over=['schedules', 'inputs', 'histories'], qtext='every interleaving of processes on one file; every path of the locking operations',
     why='A missing or late lock is only visible when another process writes in the window; the tests are single-process.',
     files=[L + 'zput.c', L + 'zlockActive.c', 'heclib/heclib_c/src/System/zlockdss.c', L + 'zwriteInternal.c', L + 'zdeleteInternal.c', U + 'zrename.c'],
     mech=[('write gateway', L + 'zput.c'), ('lock acquisition', L + 'zlockActive.c'), ('OS lock', 'heclib/heclib_c/src/System/zlockdss.c')],
     check='c02_lock_covers.py', technique='who-may-call rule plus path-sensitive typestate dataflow over LLVM IR',
     note='Decides the structural necessary conditions (gateway, acquisition, coverage), not the outcome of interleavings. Known finding: zrename checks the new name before locking.')

prop(id='C03', title='A read-only handle never changes its file',
     statement='A DSS file that was opened with read access, or whose handle was found or set read-only, is never changed through that handle: opening it opens the operating system file read-only and creates nothing, '
               'no data operation (write, delete, undelete, rename, alias, tag, catalog sort, edit of paired data, squeeze, copy into it) writes, truncates, renames or removes anything through it, '
               'and write, delete, rename and alias operations return an error. Only opening, closing and the explicit access setting change a handle\'s access status.',
     over=['inputs', 'histories'], qtext='every operation of the library on a handle whose access status is read-only',
     why='The tests try one or two operations on a read-only file; any of the dozens of other writers may lack the permission test, and as root the operating system does not refuse.',
     files=[L + 'zopenInternal.c', L + 'zwriteInternal.c', L + 'zdeleteInternal.c', U + 'zrename.c', U + 'zsqueeze7.c', U + 'zinquire.c'],
     mech=[('access status', L + 'zopenInternal.c'), ('permission test', L + 'zwriteInternal.c'), ('write gateway', L + 'zput.c')],
     check='c03_read_only.py', technique='bottom-up interprocedural effect analysis under the assumption "handle read-only" over LLVM IR',
     note='Process-table bookkeeping (zpid) and lock bookkeeping bytes are exempt; the effect analysis follows handles passed as arguments.')

prop(id='C17', title='The on-disk layout of version 7 files is the released one',
     statement='Every file the library writes uses the released version 7 layout: the word position of each item in the file header, the record info block and the pathname bin, the size of an info block, and the marker words '
               '(end of file header -97531, record info block -97534, end of file -97532) have exactly the released values, and no two items of one table share a position. '
               'The positions of the items in the in-memory handle are distinct and lie inside the 250 word handle array.',
     over=['inputs', 'configurations'], qtext='every word of the header, info block, bin and handle tables',
     why='Tests write and read with the same library, so a consistent shift of a position passes them and only makes existing files (or other programs on the same file) unreadable.',
     files=[L + 'zinit.c', 'heclib/heclib_c/src/headers/zdssKeys.h', 'heclib/heclib_c/src/headers/zdssVals.h', L + 'zwriteEOF.c'],
     mech=[('key tables', L + 'zinit.c'), ('marker check', L + 'zreadInfo.c')],
     check='c17_layout.py', technique='constant propagation over LLVM IR against a frozen layout table',
     note='The frozen table (checks/format7.py) was taken from the pinned release, not derived from an independent specification; it detects any departure from it.')

prop(id='C04', title='A failure to read or write the file reaches the caller',
     statement='When the operating system fails a read, write, seek, flush or truncation of a DSS file, or only part of the data is transferred, the operation that needed it does not report success: every function between the system call and the public operation returns a failure '
               '(a severe error code, a raw negative status, or the -1 of a count) on every path after the failure, whichever block, header, bin, alias, reclaim table, location or copied record was concerned. Failures that happen when the lock is given back or the file is closed count as well.',
     over=['faults', 'inputs'], qtext='every system call that can fail, on every path of every operation that reaches it',
     why='The tests never run out of disk space; an unchecked status shows up only when a particular write out of the dozens of an operation fails.',
     files=[L + 'zget.c', L + 'zput.c', L + 'zputBuff.c', L + 'zwriteInternal.c', L + 'zpermWrite.c', L + 'zlockActive.c', 'heclib/heclib_c/src/System/zreaddisk.c'],
     mech=[('raw reads', 'heclib/heclib_c/src/System/zreaddisk.c'), ('error class test', 'heclib/heclib_c/src/SemiPublic/zisError.c'), ('buffered writes', L + 'zputBuff.c')],
     check='c04_failures.py', technique='bottom-up interprocedural, path-sensitive error propagation dataflow over LLVM IR',
     note='Exempt: process table and lock counters, inquiry and diagnosis tools, legacy calls without a status result, the temporary file of a squeeze. Ten unchecked places are known findings.')

prop(id='C05', title='Error codes keep and tell what went wrong',
     statement='An error code keeps the severity, calling function, reporting function, error number and two-digit system status it was made from: encoding and decoding are exact inverses for every severity 1-9, adding a calling function changes nothing else, a code is always negative, '
               'and the error test is true for severities of invalid argument (3) and above and for raw failure statuses (-2 to -9), false for notices and warnings, "record not found" (-1) and non-negative results. '
               'For a version 7 file the error reporting routine returns the code of exactly the severity, function and error number it was given. Every error reported has a known severity, error number and function, with the published numbers, message text and function name.',
     over=['inputs'], qtext='every combination of severity, functions, error number and status; every reporting call in the program',
     why='Tests compare the codes of a handful of failures with zero; the class of a code decides whether callers notice a failure at all.',
     files=[L + 'zerrorEncode.c', L + 'zerrorDecode.c', L + 'zerrorEncodeHigh.c', L + 'zerrorProcessing.c', 'heclib/heclib_c/src/SemiPublic/zisError.c', 'heclib/heclib_c/src/headers/zerrorCodes.h'],
     mech=[('code arithmetic', L + 'zerrorEncode.c'), ('class test', 'heclib/heclib_c/src/SemiPublic/zisError.c'), ('reporting', L + 'zerrorProcessing.c')],
     check='c05_error_codes.py', technique='abstract interpretation over linear (mixed radix) forms, constant propagation and path-sensitive dataflow over LLVM IR',
     note='The published tables (checks/codes7.py) were taken from the pinned tree. The code arithmetic must stay loop-free.')

prop(id='C24', title='Formatted text gets the arguments it asks for',
     statement='Every formatted message, log line or string the library produces is made from a fixed template whose conversions agree in number, order and type with the values passed; no text from a caller, a file name, a pathname or record data is ever used as a template. '
               'This includes the error messages, whose template is chosen by the error number.',
     over=['inputs'], qtext='every formatting call, for every error number',
     why='Most messages belong to failures the tests never provoke; a wrong conversion reads a wild pointer or prints garbage only then.',
     files=[L + 'zerrorProcessing.c', L + 'zerrorMessage.c', 'heclib/heclib_c/src/headers/zerrorCodes.h', L + 'zmessageDebug.c'],
     mech=[('error message templates', 'heclib/heclib_c/src/headers/zerrorCodes.h'), ('error formatting', L + 'zerrorProcessing.c')],
     check='c24_formats.py', technique='constant propagation of templates and type agreement over LLVM IR, path-sensitive per error number in zerrorProcessing',
     note='All calls of the printf family in the program. Templates that the plain-text branch of zerrorProcessing copies verbatim are not formatted at all.')

prop(id='C20', title='The counters in the file header follow the operations',
     statement='After every operation that succeeds, each counting word of the file header has changed by exactly what the operation did: records (+1 for a new one, -1 for a delete, +1 for an undelete, unchanged by overwrites and renames), deletes, renames, aliases and alias deletes, collections, '
               'expansions, the number of internal headers, second headers, user headers and of data areas 1-3 in use, pathname bins and hash slots used, dead space (by the exact words given up), the file size (by the words handed out), the catalog sort state (0 never stored, 1 current, 2 new records, 3 deleted or renamed) with its pending writes and deletes, '
               'and the largest size of each kind of area and record type (raised by a larger one, never lowered). A new file starts with all of them zero, and nothing but these operations changes them.',
     over=['inputs', 'histories'], qtext='every header word counted, every successful path of every operation that changes it',
     why='Tests read the record count after short scenarios; a counter that drifts shows up as an undersized read buffer, a stale catalog or a wrong statistic only after a particular history (undelete, overwrite with a new area, alias removal).',
     files=[L + 'zwriteNew.c', L + 'zwriteExisting.c', L + 'zwriteInternal.c', L + 'zdeleteInternal.c', U + 'zrename.c', U + 'zaliasAdd.c', U + 'zaliasRemove.c', U + 'zaliasRemoveAll.c', L + 'zbinNew.c', L + 'zsetCatalogSortAddresses.c', L + 'zpermCreate.c'],
     mech=[('new record', L + 'zwriteNew.c'), ('maxima', L + 'zwriteInternal.c'), ('delete and undelete', L + 'zdeleteInternal.c')],
     check='c20_header_counts.py', technique='path-sensitive net effect analysis: affine forms over LLVM IR under interval hypotheses, with summaries of callees',
     note='Space reuse from the reclaim table (off by default) is not counted. The table of effects is written from the meaning of each word, not generated from the tree.')

prop(id='C07', title='The handle of a closed file is turned away',
     statement='A handle whose file was closed, or was never opened, is refused by every operation: retrieving, storing, deleting, renaming, copying, cataloguing, aliasing, squeezing, checking or asking about a file through it answers with a negative status, '
               'follows no pointer the handle once had, and does no input or output on its descriptor (which would be standard input). Closing a file clears the words by which an open handle is recognised and frees each piece of memory the handle owns exactly once, leaving no address of it behind.',
     over=['histories', 'inputs'], qtext='every public operation, with any arguments, after a close or before an open',
     why='The tests try a few operations on a closed handle; each of a hundred operations needs its own guard, and a kept address shows only when the handle is used again.',
     files=[L + 'zcloseInternal.c', L + 'zmemoryFree.c', L + 'zcheckKeys.c', U + 'zinquire.c', L + 'zreadInternal.c', U + 'zcatalogFile.c'],
     mech=[('closing', L + 'zcloseInternal.c'), ('owned memory', L + 'zmemoryFree.c'), ('handle check', L + 'zcheckKeys.c')],
     check='c07_closed_handle.py', technique='bottom-up path-sensitive abstract interpretation over LLVM IR under the hypothesis of a closed handle',
     note='A handle array that was never zeroed is outside. The handle-less helper functions of the struct layer do not take a handle.')

J = 'heclib/javaHeclib/src/'
prop(id='C09', title='What a library function takes for its own use it gives back, once',
     statement='Memory, record structures, streams and file descriptors that a function of the library takes for its own work are given back by the time it returns, on every path including every error return, or handed on to the structure, output argument or caller that owns them from then on. '
               'Each is given back once, with the call made for its kind, is not used after that, and its variable never takes another value while it is still the only holder. So a process that stores and retrieves for days does not grow, run out of descriptors, or free a block twice.',
     over=['inputs', 'histories'], qtext='every path of every library function that takes memory, a structure, a stream or a descriptor',
     why='A leak or a double free sits on an error return or an unusual combination of arrays; the unit tests take the success path once and do not measure memory.',
     files=[L + 'ztsIrregStoreBlock.c', L + 'ztsRegStoreBlock.c', L + 'ztsRetrieveReg7.c', L + 'zcatInternalSort.c', U + 'zpdStore.c', U + 'zpdRetrieve.c', U + 'zarrayRetrieve.c', U + 'ztextStoreFromFile.c'],
     mech=[('structures', 'heclib/heclib_c/src/Public/zstructFree.c'), ('record arrays', 'heclib/heclib_c/src/Internal')],
     check='c09_memory.py', technique='path-sensitive typestate (property simulation) per allocation over LLVM IR',
     note='Paths on which an allocation of the same function failed are out of scope, as are the members of structures that are handed on. The bundled GNU sort is left out; the Java and C bridges are the subject of C15.')

prop(id='C11', title='A record structure frees exactly the members it owns',
     statement='Freeing a record structure (time series, paired data, text, array, TIN, grid, location, catalog, transfer and record information structures) with zstructFree gives back every array and string the library put in it, and never one that belongs to the caller or to another structure. '
               'Each member has a flag in allocated[] that is set exactly while the structure owns what the member points to: a function that puts new memory in a member sets its flag, one that puts the caller\'s array there does not, one that moves a member from one structure to another clears the flag of the first and sets that of the second, '
               'one that replaces a member frees the old memory if and only if the flag is set, and after a failed call the structure of the caller still holds the caller\'s arrays. Every kind of structure made by the library is freed by the routine for that kind.',
     over=['inputs', 'histories'], qtext='every member of every structure on every path of the functions that fill, copy, trim or move it',
     why='A wrong flag shows as a leak, or as a crash when the caller frees its own array later; the tests check values, not ownership, and take few combinations of float, double, profile, partial and converted data.',
     files=[U + 'zstructFree.c', U + 'zpdRetrieve.c', U + 'ztextRetrieve.c', L + 'ztsTrim.c', L + 'ztsRetrieveReg7.c', L + 'ztsRetrieveIrreg7.c', U + 'zstructTsClone.c', U + 'ztsStore.c', U + 'zspatialTinStore.c'],
     mech=[('free routines', U + 'zstructFree.c'), ('flags', 'heclib/heclib_c/src/headers/zStructAllocation.h')],
     check='c11_members.py', technique='path-sensitive typestate of each member against its flag over LLVM IR',
     note='A member whose flag is not known on a path is taken to be in step with it. Structures without flags (vertical datum) are outside.')

prop(id='C15', title='The Java natives and the C interface give back what they take',
     statement='Whatever a Java native or a function of the C interface (hecdss) takes or makes for one call is given back by the end of that call, on every path including every error return: the characters of each Java string and the elements of each Java array are released exactly once, to the object they came from and with changed elements copied back, '
               'each record structure it created is freed once with zstructFree, each block of memory, its own or one made by a helper, is freed once or handed on to the structure (with the flag that makes zstructFree free it) or caller that owns it, and nothing is used after it was given back.',
     over=['inputs', 'histories'], qtext='every path of every Java native and every function of the C interface',
     why='The unit tests do not load the Java natives at all, and an array kept pinned or a structure leaked on an error path shows only in a process that runs for days.',
     files=[J + 'Hec_ztsStore.c', J + 'Hec_zpdRetrieve.c', J + 'Hec_ztinStore.c', J + 'Hec_zrecInfo.c', J + 'Hec_zclose.c', 'heclib/hecdss/hecdss.c'],
     mech=[('Java natives', J), ('C interface', 'heclib/hecdss/hecdss.c')],
     check='c15_bridges.py', technique='path-sensitive typestate (property simulation) per resource over LLVM IR',
     note='Assumes that taking the elements of an array or string does not fail. Local references are left to the virtual machine. Who frees the members of a structure is another matter.')

prop(id='C25', title='Records never overlap in the file',
     statement='Every write of a version 7 file stays inside space that belongs to it. The six areas of a record (internal header, second header, user header, three value areas) follow each other without overlap behind the info block of the record, and the space taken for a record holds them all in whole 8-byte words. '
               'A record is rewritten in place only if all its new areas fit in the space it already has; otherwise it moves to new space and its pathname entry gets the new address. New space is taken at the recorded end of the file, or is a piece of reclaimed space that is long enough and is then struck from the table or cut to what is left, and the end of file mark is written at the new end. '
               'Each area is written from its own array and read back from the same place into the same array, and a read never puts more words into an array than it was allocated with or the caller says it holds. Bins, tables and the stored catalog order are written inside the blocks allocated for them.',
     over=['inputs', 'histories'], qtext='every combination of area lengths, odd and even, old and new',
     why='Overlap needs a particular combination of odd lengths and an overwrite with different areas; the damaged record is usually another one, found much later.',
     files=[L + 'zwriteNew.c', L + 'zwriteExisting.c', L + 'zwriteInternal.c', L + 'zreadInternal.c', L + 'zgetFileSpace.c', L + 'zbinNew.c', L + 'zpermCreate.c', U + 'zrename.c'],
     mech=[('new record', L + 'zwriteNew.c'), ('overwrite', L + 'zwriteExisting.c'), ('space', L + 'zgetFileSpace.c'), ('reading', L + 'zreadInternal.c')],
     check='c25_record_space.py', technique='path-sensitive affine form analysis of addresses and lengths over LLVM IR',
     note='Of the table of reclaimed space (off by default) only the taking of a piece is looked at, not what is entered into it. Arithmetic overflow of 32-bit lengths is assumed away.')

prop(id='C13', title='What is written into a buffer of stated size stays inside it',
     statement='A routine that is told how much room a buffer has writes no more than that into it, terminator included, whatever text, pathname or record it was given: the text buffers of the public C interface, the string, date, pathname and message routines, and the packing of characters into words. '
               'Everywhere in the library, a call that states how much may be written into a local variable, a global or a member of a structure states no more than what is left of that object; and a writer that is told no room (strcpy, sprintf) writes only text of known length there.',
     over=['inputs'], qtext='every length of every text, including lengths equal to the room',
     why='The damage needs a text that just fills the room (or one more character), so tests with ordinary names pass; it then overwrites a neighbour and shows up elsewhere.',
     files=['heclib/hecdss/hecdss.c', 'heclib/heclib_c/src/Utilities/stringCopy.c', 'heclib/heclib_c/src/Utilities/copyLines.c', L + 'charInt.c', L + 'charLong.c', U + 'zpathnameGetPart.c', U + 'zinquireChar.c'],
     mech=[('copy of text', 'heclib/heclib_c/src/Utilities/stringCopy.c'), ('characters in words', L + 'charLong.c'), ('public interface', 'heclib/hecdss/hecdss.c'), ('callers', 'every call of a routine that is told the room')],
     check='c13_buffer_room.py', technique='affine forms and intervals along every path, with bounds learnt from rounds of loops, over LLVM IR, against the stated rooms',
     note='Memory obtained at run time is not compared. 22 places that cannot be decided (messages built with sprintf from user text, and a few writers) are listed in checks/rooms7.json and DESIGN.md. Assumes the caller states a room of at least one unit and a little-endian machine.')

prop(id='C06', title='What an operation did to the file header is in the file when it returns',
     statement='When an operation reports success and leaves the file unlocked, every change it made to the file header is in the file, not only in memory: the changed header is written back before or when the lock is given back, '
               'and nothing changes it afterwards or reads it again from the file before it was written. Giving the lock back writes the header first, then flushes to disk (when other processes may be waiting), and only then releases the lock.',
     over=['inputs', 'histories', 'schedules', 'crash_points'], qtext='every successful path of every operation that changes the file header, in every access mode',
     why='The tests use one process and close the file, which hides a header that was never written back; another process, or a crash after the call returned, sees the old file size and overwrites the new record.',
     files=[L + 'zlockActive.c', L + 'zpermWrite.c', L + 'zgetFileSpace.c', L + 'zwriteNew.c', L + 'zdeleteInternal.c', U + 'zrename.c', U + 'zaliasAdd.c', U + 'zlocationStore.c'],
     mech=[('write back', L + 'zpermWrite.c'), ('release', L + 'zlockActive.c'), ('header changes', 'every store to the header')],
     check='c06_saved.py', technique='interprocedural path-sensitive typestate dataflow (header changed / written / lock level) over LLVM IR',
     note='Only successful paths are obliged. Cursor and error words of the header are not saved on purpose. Assumes an address kept in the file lies within the recorded file size.')

prop(id='C21', title='Squeezing or copying a file never loses its contents',
     statement='While a file is squeezed, in place or by way of a second file, its contents stay whole until the squeezed copy is complete: all valid records copied without error, flushed to disk, its header read back and its pathname bins checked; '
               'only then is the original emptied or deleted (closed first). From then on the copy is not deleted before its contents are back in the original, completely and flushed, or it has taken the name of the original, and success is reported only then, with the new header loaded. '
               'The copy of a file looks at every word of it and passes over only what is no record or not of the wanted state; a record copied keeps all its areas, type, dates and times. A left-over temporary file is never added to, and no other library code deletes, renames or empties a file (temporary sort files aside).',
     over=['inputs', 'fault_sequences', 'crash_points'], qtext='every path of a squeeze, with each step succeeding or failing; every block and word of a copied file',
     why='The tests squeeze small healthy files; the loss needs a failing step, an interrupt, or a record at the edge of a block.',
     files=[U + 'zsqueeze7.c', U + 'zcopyFile.c', L + 'copyFile.c', L + 'zcopyRecordInternal.c', L + 'zcompareRecordStatus.c'],
     mech=[('squeeze', U + 'zsqueeze7.c'), ('scan for records', U + 'zcopyFile.c'), ('copy back', L + 'copyFile.c'), ('one record', L + 'zcopyRecordInternal.c')],
     check='c21_squeeze.py', technique='path-sensitive typestate of two files over LLVM IR, linear forms over the rounds of the copying loops',
     note='Assumes unlink, rename and ftruncate change nothing when they fail. Version 6 files and the Windows branches are outside.')

prop(id='C18', title='Every item of a record has its released place',
     statement='Each kind of record (time series, paired data, text, array, grid, TIN, location) keeps every item at the released place: each slot of the internal header, each block of the value arrays and headers and each string among the packed strings is filled from the one item it was released for, on every path, and the routines that retrieve a record '
               'or report its sizes take every item from that same place. Items always stored or retrieved together still are, and the packed strings keep their order.',
     over=['inputs', 'histories'], qtext='every combination of optional items, flags and data kinds; records written by any release',
     why='Writer and reader are tested against each other, so two places exchanged in both go unnoticed until a file of another release, or another program, is read; places used only for some kinds of data are not sampled.',
     files=[U + 'ztextStore.c', U + 'zspatialGridStore.c', U + 'zspatialGridRetrieve.c', U + 'zpdStore.c', U + 'zlocationStore.c', L + 'ztsInternalHeaderPack.c', L + 'ztsWriteBlock.c'],
     mech=[('packing', U + 'ztextStore.c'), ('unpacking', U + 'zspatialGridRetrieve.c'), ('sizes', L + 'zgetRecordSize7.c')],
     check='c18_record_layout.py', technique='flow-sensitive interprocedural copy and constant tracking over LLVM IR against a frozen table of places',
     note='The table (checks/records7.json) was derived from the pinned tree and reviewed by hand. Values are not interpreted, the length in words of computed counts is compared by what they are computed from. Little-endian machines only.')

# ---- properties static analysis of this code cannot decide -------------------------------------------------------
prop(id='N01', title='What was stored is what is retrieved',
     statement='Whatever was stored in a record (values, times, quality, notes, headers, tables, texts, grids, TINs) comes back equal, bit for bit or within the stated precision, for every record type, length, time window, interval and storage flag, including after overwriting parts of it with other data.',
     over=['inputs', 'histories'], qtext='every record content and every sequence of stores',
     why='The combinations of interval, window, storage flag and previous content are unbounded.',
     files=['heclib/heclib_c/src/Public/ztsStore.c', 'heclib/heclib_c/src/Public/ztsRetrieve.c', 'heclib/heclib_c/src/Public/zpdStore.c'],
     mech=[('time series blocks', L + 'ztsStoreReg7.c')],
     na='equality of unbounded runtime values over loops that merge, compress and split blocks: no sound static abstraction in reach bounds it; the placement of items (C18), the space (C25) and the layout (C17) are claimed instead')

prop(id='N02', title='Data compression is lossless',
     statement='Compressing then expanding time series (repeat, delta) and grid data (zlib, precip) gives back the original values, or values within the stated precision.',
     over=['inputs'], qtext='every array of values', why='Bit-level round trips over arbitrary data.',
     files=[L + 'ztsWriteBlock.c', U + 'zspatialGridStore.c'], mech=[('grid compression', U + 'zspatialGridStore.c')],
     na='numeric equality of a bit-level encoder and decoder over unbounded arrays is outside what dataflow over the source can establish')

prop(id='N03', title='Dates and times convert consistently',
     statement='Julian day, year-month-day, minutes, seconds, text dates and block starts convert into each other without loss for every date from year -9999 to 9999 and every time zone and interval; incrementing times and counting periods agree.',
     over=['inputs'], qtext='every date, time and interval', why='Calendar arithmetic over an unbounded range.',
     files=['heclib/heclib_c/src/Utilities/DateTime/dateToJulian.c'], mech=[('julian dates', 'heclib/heclib_c/src/Utilities/DateTime/dateToJulian.c')],
     na='calendar arithmetic (divisions, remainders, leap rules) relates concrete numbers; interval and affine analyses lose the relation between the two directions')

prop(id='N04', title='Concurrent writers leave one consistent file',
     statement='Whatever the interleaving of any number of processes reading and writing one file in multi-user access, each sees whole records, and the file after all have finished holds every record stored, once.',
     over=['schedules', 'histories'], qtext='every interleaving of processes', why='Interleavings are not sampled by single-process tests.',
     files=[L + 'zlockActive.c', L + 'zwriteInternal.c'], mech=[('lock', L + 'zlockActive.c')],
     na='the outcome of an interleaving is a property of executions and of the operating system\'s advisory locks; its structural necessary conditions (lock held, released, header fresh and saved) are claimed as C01, C02 and C06')

prop(id='N05', title='A crash leaves a readable file',
     statement='If the process or machine stops at any point of a write, the file opens again and every record stored before is unharmed.',
     over=['crash_points'], qtext='every crash point of every operation', why='Crashes between writes are never produced by tests.',
     files=[L + 'zwriteNew.c', L + 'zpermWrite.c'], mech=[('write order', L + 'zwriteNew.c')],
     na='the code writes the index entry of a new record before its info block and values on purpose and has no journal, so no ordering rule that a static analysis could check holds; the outcome depends on file system buffering')

prop(id='N06', title='Aggregation, interpolation and statistics are right',
     statement='Retrieving with another interval, effective function or statistic gives values equal to the mathematical definition for every input series, with missing values treated as documented.',
     over=['inputs'], qtext='every series, function and interval', why='Numeric results over all inputs.',
     files=['heclib/heclib_c/src/headers/heclib7.h'], mech=[('conversion', 'heclib/heclib_c/src/headers/heclib7.h')],
     na='floating point results against a mathematical definition: not decidable from the source by dataflow')

prop(id='N07', title='A damaged file never brings the process down',
     statement='Opening, cataloguing, checking or reading a file with arbitrary contents ends with an error code, without touching memory out of bounds and without looping for ever.',
     over=['inputs'], qtext='every byte content of a file', why='The space of damaged files is unbounded.',
     files=[L + 'zbinNew.c', L + 'zreadInternal.c'], mech=[('chain walks', L + 'zreadInternal.c')],
     na='every length, count and address read from the file would have to be bounded; the code validates a few only, so the property is false on this tree in ways that are not small to repair, and a sound bound analysis would drown in alarms')

prop(id='N08', title='Wildcards select exactly the matching pathnames',
     statement='A catalog or what-changed selection with wildcard characters in any pathname part returns exactly the pathnames that match it, ignoring letter case and trailing blanks.',
     over=['inputs'], qtext='every pattern and every set of pathnames', why='String matching over all strings.',
     files=[L + 'zcatalogInternal.c'], mech=[('matching', L + 'zcatalogInternal.c')],
     na='a fact about string values computed by loops over unbounded text; no static domain in reach decides it')

prop(id='N09', title='Units and vertical datums convert by the right offset',
     statement='Values stored or retrieved with a vertical datum or unit request are shifted and scaled by exactly the offset and factor of the location or the user datum, once.',
     over=['inputs', 'histories'], qtext='every datum, unit and value', why='Depends on parsed text and floating point values.',
     files=['heclib/heclib_c/src/headers/verticalDatum.h'], mech=[('datum', 'heclib/heclib_c/src/headers/verticalDatum.h')],
     na='offsets come from parsed XML text at run time and the results are floating point values')

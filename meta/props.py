#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = ('The existing tests only load a handful of BMG files, one sequence file and the '
         'documentation examples')

P = []


def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), note=''):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     hook_needed=None)), note))


prop('L01', 'LZ10 compression is undone exactly by LZ10 decompression',
     'Compressing any byte string with LZ10 and decompressing the result gives back exactly the '
     'original bytes. This holds for every length, including empty data, data with long runs, and '
     'repeats at any distance.',
     'every byte string',
     'No existing test calls the LZ10 functions; the property quantifies over every byte string.',
     ['ndspy/lz10.py', 'ndspy/_lzCommon.py'],
     [('LZ10 compress/decompress', 'ndspy/lz10.py'), ('match search and token emission', 'ndspy/_lzCommon.py')],
     note='all contents for 0..7 bytes; families with symbolic bytes up to ~70 bytes and at the window and length limits')

prop('L02', 'LZ10 streams conform to the LZ10 format, in both directions',
     'Every stream produced by LZ10 compression is one an independent LZ10 decoder accepts: marker '
     'byte 0x10, 24-bit little-endian original size, flag groups of eight tokens, back-references '
     'with lengths 3 to 18 and displacements that never reach before the start of the data. '
     'Decompressing any well-formed LZ10 stream yields exactly the data the format defines, with '
     'the length the header announces.',
     'every byte string to compress and every well-formed stream to decompress',
     'No existing test calls the LZ10 functions; streams made by other encoders are never tried.',
     ['ndspy/lz10.py', 'ndspy/_lzCommon.py'],
     [('LZ10 decoder', 'ndspy/lz10.py'), ('token emission', 'ndspy/_lzCommon.py')],
     note='streams of up to 10 tokens with symbolic literals, lengths and displacements')

prop('L03', 'Code compression is undone by code decompression',
     'Decompressing code that was compressed with the code compression function gives back the '
     'original bytes (for data that was stored uncompressed: the original bytes followed only by '
     'the padding and zero footer that mark it as uncompressed). For the ARM9 variant the leading '
     '0x4000 bytes are additionally left unchanged in the compressed file.',
     'every byte string, for both values of the ARM9 option',
     'No existing test calls the code compression functions.',
     ['ndspy/codeCompression.py', 'ndspy/_lzCommon.py'],
     [('compress/decompress', 'ndspy/codeCompression.py'), ('match search', 'ndspy/_lzCommon.py')],
     note='all contents up to 6 bytes, structured families above')

prop('L04', 'Code decompression follows the backward LZ format',
     'Decompressing any well-formed backward-LZ code file gives exactly what the format defines, '
     'working from the footer (compressed length, header length, extra size) towards the front; '
     'bytes in front of the compressed region and bytes appended behind the footer are kept unchanged. Data whose footer marks it as '
     'not compressed is returned unmodified.',
     'every well-formed compressed code file and every uncompressed one',
     'No existing test calls the code compression functions.',
     ['ndspy/codeCompression.py'],
     [('footer parsing and backward decoder', 'ndspy/codeCompression.py')],
     note='footers and streams of up to 10 tokens with symbolic contents')

prop('L05', 'Compression makes use of repeats',
     'Compressed data is never longer than what an encoder needs that takes, at each position, the '
     'longest repeat of 3 to 18 bytes lying before it within reach (1000h bytes back for LZ10, 1002h for '
     'code), where the unused rest of a last group of flags may be filled up; and it is never longer than '
     'the data stored as it is with the overhead of the format (for code: padding and an empty footer).',
     'every byte string',
     'No existing test calls the compression functions, and a round trip does not notice compression that has stopped compressing.',
     ['ndspy/_lzCommon.py', 'ndspy/lz10.py', 'ndspy/codeCompression.py'],
     [('longest match search', 'ndspy/_lzCommon.py'), ('choice between compressed and stored form', 'ndspy/codeCompression.py')],
     note='the same families of data as L01 and L03')

prop('F01', 'Filename tables survive saving and loading',
     'Saving any folder tree as a filename table and loading it again gives an equal tree: the same '
     'file names in the same order with the same file IDs in every folder, and the same subfolders '
     'in the same order at every level. Loading a well-formed table and saving it gives a table '
     'with the same meaning.',
     'every folder tree with names of 1 to 127 bytes and valid IDs',
     'The tests only build one or two fixed trees inside doctest examples.',
     ['ndspy/fnt.py'],
     [('load/save', 'ndspy/fnt.py')],
     note='all trees up to 4 folders in all shapes, symbolic names, IDs; long names and 130 folders as special shapes')

prop('F02', 'Filename lookups by name and by ID agree with the tree',
     'Looking up a path gives the ID of exactly the file at that path, or nothing if there is none; '
     'looking up an ID gives the path of exactly the file with that ID, or nothing; the two are '
     'inverse to each other. Subfolder lookup gives exactly the folder at the path, and indexing by '
     'name or ID agrees with these lookups and raises for missing names.',
     'every folder tree and every path or ID asked for',
     'Only a few fixed lookups occur in documentation examples.',
     ['ndspy/fnt.py'],
     [('Folder lookups', 'ndspy/fnt.py')],
     note='symbolic names, paths and IDs over several tree shapes')

prop('N01', 'NARC archives survive saving and loading',
     'Saving a NARC archive and loading it again gives the same file contents in the same order, '
     'the same filename tree and the same byte-order mark setting, for any file contents and sizes '
     'including empty files and archives without files or without names.',
     'every list of files, filename tree and byte-order setting',
     'No existing test saves a NARC.',
     ['ndspy/narc.py', 'ndspy/_common.py', 'ndspy/fnt.py'],
     [('NARC load/save', 'ndspy/narc.py'), ('block framing', 'ndspy/_common.py')],
     note='up to 4 files of any length 0..70000 (symbolic), 300-file shape')

prop('N02', 'NARC files are laid out correctly',
     'A saved NARC is well-formed for an independent reader: correct header magic, total size and '
     'block count, block sizes that tile the file exactly, every file entry inside the data block '
     'with 4-byte aligned start and exact length, entries in order and not overlapping. A NARC '
     'made by another tool with any legal padding is loaded with exactly the files its table describes.',
     'every list of files and every legal archive layout',
     'No existing test saves a NARC or loads one.',
     ['ndspy/narc.py', 'ndspy/_common.py'],
     [('NARC save', 'ndspy/narc.py'), ('block framing', 'ndspy/_common.py')])

prop('R01', 'ROMs survive saving and loading',
     'Saving a ROM and loading it again preserves all header fields, the ARM9 and ARM7 code and '
     'their RAM addresses, overlay tables, icon/banner, debug ROM, RSA signature, filename table, '
     'every file by ID and the ARM9 post data, for any sizes of these parts. Files can be read and '
     'replaced by name.',
     'every combination of part sizes, contents and header fields',
     'The tests never save a ROM with contents.',
     ['ndspy/rom.py', 'ndspy/_common.py', 'ndspy/fnt.py'],
     [('ROM load/save', 'ndspy/rom.py')])

prop('R02', 'Saved ROMs are laid out correctly',
     'In a saved ROM every offset and size recorded in the header and in the file allocation table '
     'points exactly at the bytes of the part it names, the parts do not overlap each other or the '
     'header, and the code, table and banner parts start on the 0x200-byte boundaries the format '
     'requires. Overlay files and ordinary files are found through the allocation table by their ID. '
     'Loading a ROM made by another tool, with its parts anywhere in the file, finds every part '
     'exactly where its header says.',
     'every combination of part sizes and contents',
     'The tests never save a ROM with contents.',
     ['ndspy/rom.py'],
     [('ROM save', 'ndspy/rom.py')])

prop('R03', 'ROM checksums and cartridge capacity are right',
     'A saved ROM carries the header checksum and the Nintendo logo checksum (CRC-16) of the bytes '
     'actually saved. When asked to update the device capacity, the saved value is the smallest '
     'capacity (128 KB times a power of two) that holds the ROM, and the object is updated to match; '
     'otherwise the capacity value is kept.',
     'every ROM contents and size',
     'The tests never save a ROM with contents.',
     ['ndspy/rom.py', 'ndspy/_common.py'],
     [('ROM save', 'ndspy/rom.py'), ('CRC-16', 'ndspy/_common.py')])

prop('R04', 'ROM file order is honoured on saving and detected on loading',
     'Files are placed in a saved ROM in the order the ROM asks for; files it does not mention '
     'follow in ascending ID order, and no file is lost or duplicated. Loading lists every file ID '
     'once, in the order in which the files are physically placed.',
     'every permutation and partial order of the file IDs',
     'The tests never save a ROM with files.',
     ['ndspy/rom.py'],
     [('sortedFileIds handling', 'ndspy/rom.py')])

prop('C01', 'ARM9/ARM7 code files survive saving and loading',
     'Loading a main code file splits it into its sections by its code settings, and saving it '
     'rebuilds a file which loads to sections with the same contents (padded with zeros to a multiple '
     'of 4 bytes), RAM addresses, BSS sizes and order (except that sections without data come '
     'last); a file without code settings stays a single section with the same bytes. Saving with '
     'compression yields a file which loads to the same sections.',
     'every list of sections, contents, addresses and BSS sizes',
     'No existing test touches code files.',
     ['ndspy/code.py', 'ndspy/codeCompression.py'],
     [('MainCodeFile load/save', 'ndspy/code.py')])

prop('C02', 'Overlay tables and overlays survive saving and loading',
     'Saving a table of overlays and loading it gives the same overlay IDs with the same RAM '
     'address, sizes, static initializer range, file ID and flags, and each overlay gets the data '
     'of the file it names; compressed overlays are decompressed. Saving an overlay returns its '
     'data (compressed on request) and updates the recorded compressed size and flag to match.',
     'every table contents and overlay data',
     'No existing test touches overlays.',
     ['ndspy/code.py'],
     [('loadOverlayTable/saveOverlayTable/Overlay', 'ndspy/code.py')])

prop('B01', 'BMG messages survive saving and loading',
     'Saving a BMG and loading it again gives the same messages: same text, same escape sequences '
     'with type and data at the same places, same message info bytes, and null messages stay null; '
     'this holds for every supported text encoding and both byte orders. The BMG ID and the other '
     'header values are kept.',
     'every list of messages, text, escapes, encoding and byte order',
     'The tests load eight fixed files; saving is compared for those only.',
     ['ndspy/bmg.py'],
     [('BMG load/save', 'ndspy/bmg.py')])

prop('B02', 'BMG scripts, labels and instructions survive saving and loading',
     'Saving a BMG and loading it again gives the same instructions, the same labels and the same '
     'script entry points, in both byte orders (apart from all-zero instructions and (0, 0) labels '
     'at the very end, which look like padding), and the saved file has correct section framing '
     'for an independent reader.',
     'every list of instructions, labels and scripts, and byte order',
     'The tests load eight fixed files; saving is compared for those only.',
     ['ndspy/bmg.py'],
     [('FLW1/FLI1 sections', 'ndspy/bmg.py')])

prop('T01', 'Touch and button layouts survive saving and loading',
     'Saving a BNCL or BNBL file and loading it again gives the same list of entries with the same '
     'positions, alignments, sizes and values, for every combination of positions and alignments. '
     'The alignment conversion from and to names or numbers is consistent, and top-left corner '
     'computations agree with the alignment.',
     'every entry, alignment and value',
     'No existing test touches these formats.',
     ['ndspy/bncl.py', 'ndspy/bnbl.py', 'ndspy/__init__.py'],
     [('load/save and alignment handling', 'ndspy/bncl.py, ndspy/bnbl.py')])

prop('K01', 'Colour conversions are consistent and lossless where they should be',
     'Unpacking a 15-bit colour into its channels and packing it again gives the same colour, in '
     'every representation; expanding 5-bit channels to 8 bits maps 0 to 0, 31 to 255, is monotonic '
     'and is undone by the reverse conversion; the alpha bit maps as documented.',
     'every colour and every pair of representations',
     'No existing test touches colours.',
     ['ndspy/color.py'],
     [('colour conversion', 'ndspy/color.py')])

prop('K02', 'Palettes survive saving and loading',
     'Saving a palette and loading it gives the same colours in the same order, and loading any '
     'palette data and saving it gives the same bytes.',
     'every palette', 'No existing test touches palettes.',
     ['ndspy/color.py'], [('loadPalette/savePalette', 'ndspy/color.py')])

prop('G01', 'Image tiles and tilemaps survive saving and loading',
     'Loading image tile data and saving the tiles gives the same bytes, and saving tiles and '
     'loading them gives the same pixels, for 4-bit and 8-bit tiles; the same holds for tilemap '
     'entries with their tile number, flips and palette in each tilemap format.',
     'every tile and tilemap contents and format',
     'No existing test touches tiles.',
     ['ndspy/graphics2D.py'], [('load/save of tiles and tilemaps', 'ndspy/graphics2D.py')])

prop('G02', 'Rendering of tiles and tilemaps shows the right pixels',
     'Rendering a tile, a tile list or a tilemap yields an image of the right size in which every '
     'pixel has the colour of the palette entry its tile pixel selects, with horizontal and vertical '
     'flips, palette selection and tile placement applied as the tilemap entry says.',
     'every tile, tilemap and palette contents',
     'No existing test renders anything.',
     ['ndspy/graphics2D.py', 'ndspy/_common.py'], [('rendering', 'ndspy/graphics2D.py')])

prop('X01', 'Texture files survive saving and loading',
     'Saving a texture file and loading it again gives the same textures and palettes under the '
     'same names in the same order with the same parameters and data, for every texture format, '
     'including compressed textures with their second data area. An independent reader finds '
     'the same textures and palettes in the saved file, and files in which palettes share data or '
     'are stored in another order load correctly. Names longer than 16 characters are refused.',
     'every list of textures and palettes (palettes of at least 4 colours)',
     'No existing test touches textures.',
     ['ndspy/texture.py', 'ndspy/_common.py'], [('NSBTX/TEX0 load/save', 'ndspy/texture.py')])

prop('X02', 'Texture rendering follows the hardware texture formats',
     'Rendering a texture yields an image of the texture size in which each pixel has the colour '
     'and transparency that the texture format defines for its data and palette, including the '
     'transparent-colour-zero setting.',
     'every texel value, palette and format',
     'No existing test renders anything.',
     ['ndspy/texture.py', 'ndspy/color.py'], [('texture decoding', 'ndspy/texture.py')])

prop('X03', 'Model files keep their contents when saved',
     'Loading a model file and saving it keeps every model (by name and order) with its data, and '
     'the texture block if there is one, so that loading the saved file gives an equal model file.',
     'every model list, data and optional texture block',
     'No existing test touches models.',
     ['ndspy/model.py', 'ndspy/texture.py', 'ndspy/_common.py'], [('NSBMD load/save', 'ndspy/model.py')])

prop('S01', 'Sound archives survive saving and loading',
     'Saving a sound archive and loading it again gives the same sequences, sequence archives, '
     'banks, wave archives, players, groups and streams under the same names and numbers with the '
     'same parameters and contents, including empty slots and entries without names.',
     'every combination of entries, names, gaps and parameters',
     'The tests only construct an empty sound archive.',
     ['ndspy/soundArchive.py', 'ndspy/soundGroup.py', 'ndspy/soundSequencePlayer.py', 'ndspy/soundStreamPlayer.py'],
     [('SDAT load/save', 'ndspy/soundArchive.py')])

prop('S02', 'Saved sound archives are well-formed',
     'A saved sound archive is well-formed for an independent reader: correct header and block '
     'offsets and sizes, every symbol and info offset inside its block and pointing at its entry, '
     'and every file table entry giving the exact position and length of the file it names, aligned '
     'and not overlapping others. Loading a saved archive finds the layout options that its file '
     'positions, lengths and sizes show, so that saving it again unchanged gives the same file.',
     'every combination of entries, names and file contents',
     'The tests only construct an empty sound archive.',
     ['ndspy/soundArchive.py'], [('SDAT save', 'ndspy/soundArchive.py')])

prop('S03', 'Sharing of identical files in a sound archive is safe',
     'When several entries of a sound archive share one file, or are merged because their contents '
     'are identical, every entry still loads its own contents and parameters after saving; entries '
     'that ask for their own copy, or whose contents differ in any byte, are never merged.',
     'every set of entries with equal or different contents and sharing options',
     'The tests only construct an empty sound archive.',
     ['ndspy/soundArchive.py'], [('file merging', 'ndspy/soundArchive.py')])

prop('W01', 'Waves and wave archives survive saving and loading',
     'Saving a wave or a wave archive and loading it again gives the same wave type, loop flag, '
     'sample rate, time value, loop offset, total length and sample data for every wave, in the '
     'same order.',
     'every wave parameters and data',
     'No existing test touches waves.',
     ['ndspy/soundWave.py', 'ndspy/soundWaveArchive.py'], [('SWAV/SWAR load/save', 'ndspy/soundWave.py')])

prop('W02', 'Streams survive saving and loading',
     'Saving a stream and loading it again gives the same parameters and, for every channel, the '
     'same blocks of sample data with the same sizes, including a shorter last block.',
     'every stream parameters, channel count and block contents',
     'No existing test touches streams.',
     ['ndspy/soundStream.py'], [('STRM load/save', 'ndspy/soundStream.py')])

prop('I01', 'Sound banks survive saving and loading',
     'Saving a sound bank and loading it again gives the same instruments at the same numbers: '
     'single-note, range and regional instruments with the same note definitions, key ranges and '
     'kinds, empty slots staying empty, and the same wave archive links.',
     'every list of instruments and parameters',
     'No existing test touches sound banks.',
     ['ndspy/soundBank.py'], [('SBNK load/save', 'ndspy/soundBank.py')])

prop('Q01', 'Sequence events encode and decode consistently',
     'Every sequence event, when encoded, takes exactly the number of bytes it reports, and '
     'decoding these bytes gives an event of the same kind with the same parameter values, '
     'leaving the decoder right after them.',
     'every event type and parameter value in its documented range',
     'One fixed sequence file is loaded by the tests.',
     ['ndspy/soundSequence.py'], [('event classes and read/save', 'ndspy/soundSequence.py')])

prop('Q02', 'Whole sequences survive saving and loading',
     'Saving a sequence made of any events and loading it again gives the same list of events, with '
     'every jump, call and track start pointing at the same target event as before. Parsed and '
     'unparsed sequences save to the same bytes, and loading a file keeps its parameters.',
     'every list of events and every choice of jump targets',
     'One fixed sequence file is loaded by the tests.',
     ['ndspy/soundSequence.py'], [('readSequenceEvents/saveSequenceEvents', 'ndspy/soundSequence.py')])

prop('Q03', 'Sequence archives survive saving and loading',
     'Saving a sequence archive and loading it again gives the same sequences under the same names '
     'with the same parameters and first events, and the same shared event data, including empty slots.',
     'every list of sequences, first events and events',
     'No existing test touches sequence archives.',
     ['ndspy/soundSequenceArchive.py', 'ndspy/soundSequence.py'], [('SSAR load/save', 'ndspy/soundSequenceArchive.py')])

prop('U01', 'Saving does not change the object being saved',
     'Saving any object twice in a row gives the same bytes, and saving leaves the observable '
     'contents of the object as they were (other than the fields documented to be updated by saving). '
     'Objects made or loaded separately share no state: changing one does not change another.',
     'every object of every file format',
     'No test saves anything twice.',
     ['ndspy'], [('save functions', 'ndspy')], over=('inputs', 'histories'))

prop('U02', 'File functions do the same as in-memory functions',
     'Every function that loads from or saves to a named file gives the same result as its '
     'in-memory counterpart on the bytes of that file: the file contains exactly the bytes the '
     'in-memory function returns, replacing what was there before, and loading reads the whole file. '
     'Options given to the file function have the effect they have in memory. A save that fails '
     'because the object cannot be saved leaves the file as it was.',
     'every object and file contents',
     'Only BMG and sequence files are loaded from disk by the tests; nothing is saved to disk.',
     ['ndspy'], [('fromFile/saveToFile and the other file functions', 'ndspy')])

prop('U03', 'Loaders reject files of the wrong kind',
     'Loading data whose magic number (or, where checked, version) is not the right one is refused '
     'with an error instead of producing an object; with the right magic it is accepted.',
     'every wrong magic number',
     'No test feeds wrong data.',
     ['ndspy'], [('magic checks', 'ndspy')])

prop('U04', 'Shared helpers compute what they promise',
     'The CRC-16 helper computes the CRC-16 (reflected polynomial 0xA001, start value 0xFFFF) of any '
     'bytes. Finding in and setting in a list of name-value pairs concern the first pair of that name '
     'and leave the others alone; an unknown name is a KeyError. The info-block helpers read back '
     'exactly what they write and refuse what does not fit. Positions with alignment pack and unpack '
     'exactly. Shortened printed forms of bytes are literals of those bytes.',
     'every input of the helpers',
     'The tests do not call the helpers.',
     ['ndspy/_common.py'], [('helpers', 'ndspy/_common.py')])

prop('U05', 'New objects keep what they are given and start out as documented',
     'Whatever is passed to a constructor or to a fromX function making an object from parts, by position '
     'or by keyword, is found unchanged in the attribute of that name, and every attribute that nothing was '
     'passed for has its documented default. The logo of a new ROM has the checksum every DS expects. '
     'NoteDefinition has one value under the two names waveID and dutyCycle. Objects made alike share no '
     'lists or folders that could change, and an empty list passed in is taken over just like a filled one.',
     'every value of every parameter, one, all or none of the optional ones given',
     'The tests construct messages and escapes with a few fixed values only.',
     ['ndspy'], [('constructors', 'ndspy')])

prop('M01', 'The music helpers keep the music as it is',
     'Computed durations equal the sum of the waits an independent player of the events finds. Moving '
     'in time goes as far as possible without exceeding the time asked for, reaches it exactly where '
     'cutting rests and appending them is allowed, and reports place, time and mode correctly. '
     'Looping a track makes exactly the part between the two times repeat. Splitting a song into '
     'tracks and saving it again, and renumbering tracks, leave every track playing the same things '
     'at the same times. Minifying a song leaves every note with the same definition and wave. '
     'Velocity edits, initial-value properties and simultaneous edits do what they say.',
     'every event list, instrument list and note usage',
     'No test touches the music helpers.',
     ['ndspy/extras/music.py'], [('music helpers', 'ndspy/extras/music.py')])


NOT_YET = 'check not built yet'
NA = {}

TECH = ('bounded symbolic execution of the package source (own engine), z3 verdict over all '
        'inputs within the stated bounds, counterexamples replayed on the real code')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, note in P:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', pid + '.py')):
            checks.append(dict(
                property=pid,
                quick_cmd=f'python3-vt vrun.py {pid} quick',
                thorough_cmd=f'python3-vt vrun.py {pid} thorough',
                evidence_file=f'evidence/{pid}.json',
                technique=TECH, level='model_checking',
                level_note='Holds for every input within the bounds listed in the evidence file; '
                           'says nothing beyond them. ' + note))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, NOT_YET)))
    m = dict(version=1, setup_cmd='python3-vt symx/selftest.py', checks=checks,
             not_applicable=na,
             notes='No hooks in /repo are needed: the sources are loaded and rewritten in memory.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

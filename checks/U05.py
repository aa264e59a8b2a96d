"""U05: new objects keep what they are given and start out as documented otherwise."""

import ndspy
import ndspy.bmg as bmg
import ndspy.bnbl as bnbl
import ndspy.bncl as bncl
import ndspy.code as code
import ndspy.codeCompression as codeCompression
import ndspy.fnt as fnt
import ndspy.graphics2D as g2
import ndspy.narc as narc
import ndspy.rom as rom
import ndspy.soundArchive as sarc
import ndspy.soundBank as sb
import ndspy.soundGroup as sg
import ndspy.soundSequence as sq
import ndspy.soundSequenceArchive as ssar
import ndspy.soundSequencePlayer as sqp
import ndspy.soundStream as st
import ndspy.soundStreamPlayer as stp
import ndspy.soundWave as sw
import ndspy.soundWaveArchive as swar
import ndspy.texture as tex
from refs import objs

ASSUMPTIONS = ['documented defaults as of the pinned revision of the documentation; undocumented classes as the '
               'signatures say', 'one, all or none of the optional arguments given']

U8, U16, U32 = (0, 255), (0, 65535), (0, 0xFFFFFFFF)
BOTH = sb.NoteType.PCM
TL = bnbl.Alignment.TOP | bnbl.Alignment.LEFT
ALIGN = [TL, bnbl.Alignment.BOTTOM | bnbl.Alignment.H_CENTER]


class A:
    """A parameter: its attribute, its values, its default (REQ: none)."""

    def __init__(self, name, kind, default, attr=None, kw=False):
        self.name, self.kind, self.default, self.kw = name, kind, default, kw
        self.attr = name if attr is None else attr


REQ = 'required'
FILE = A('file', 'none', None, '')
ENTRY = [A('unk02', U16, 0), A('bankID', U16, 0), A('volume', U8, 127), A('channelPressure', U8, 64),
         A('polyphonicPressure', U8, 50), A('playerID', U8, 0)]
STREAM = [A('unk02', U16, 0), A('volume', U8, 127), A('priority', U8, 64), A('playerID', U8, 0), A('unk07', U32, 0)]
ZERO = dict.fromkeys(['unk03', 'unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C', 'unk40', 'unk44', 'loopOffset',
                      'samplesInLastBlock', 'samplesPerBlock', 'time', 'dataMergeOptimizationID'], 0)
ROM = dict(
    name=b'', idCode=b'####', developerCode=b'\0\0', unitCode=0, encryptionSeedSelect=0, deviceCapacity=9,
    pad015=0, pad016=0, pad017=0, pad018=0, pad019=0, pad01A=0, pad01B=0, pad01C=0, region=0, version=0, autostart=0,
    arm9EntryAddress=0x02000800, arm9RamAddress=0x02000000, arm7EntryAddress=0x02380000, arm7RamAddress=0x02380000,
    normalCardControlRegisterSettings=0x00416657, secureCardControlRegisterSettings=0x081808f8, secureAreaChecksum=0,
    secureTransferDelay=0x0D7E, arm9CodeSettingsPointerAddress=0, arm7CodeSettingsPointerAddress=0,
    secureAreaDisable=bytes(8), pad088=bytes(0x38), debugRomAddress=0, pad16C=bytes(0x94), pad200=bytes(0x3E00),
    rsaSignature=b'', arm9=b'', arm9PostData=b'', arm7=b'', arm9OverlayTable=b'', arm7OverlayTable=b'', iconBanner=b'',
    debugRom=b'', files=[], sortedFileIds=[])

# name: (callable, parameters, other attributes)
SPECS = {
    'BMG': (bmg.BMG, [A('id', U32, 0, kw=True)],
            dict(encoding='utf-16', fullEncoding='utf-16le', endianness='<', instructions=[], labels=[], messages=[], scripts=[],
                 unk14=0, unk18=0, unk1C=0)),
    'BMG.fromMessages': (bmg.BMG.fromMessages, [A('messages', 'list', REQ), A('instructions', 'list', []), A('labels', 'list', []),
                                                A('scripts', 'list', []), A('id', U32, 0, kw=True)],
                         dict(encoding='utf-16', endianness='<')),
    'Message': (bmg.Message, [A('info', 'bytes', b''), A('stringParts', 'list', []), A('isNull', 'bool', False)], {}),
    'Escape': (bmg.Message.Escape, [A('type', U8, 0), A('data', 'bytes', b'')], {}),
    'BNBLTouchArea': (bnbl.BNBLTouchArea, [A('x', U16, 0), A('y', U16, 0), A('width', U8, 0), A('height', U8, 0),
                                           A('alignment', ALIGN, TL)], {}),
    'BNBL': (bnbl.BNBL, [], dict(unk04=0, touchAreas=[])),
    'BNBL.fromTouchAreas': (bnbl.BNBL.fromTouchAreas, [A('touchAreas', 'list', REQ), A('unk04', U16, 0)], {}),
    'BNCLImagePosition': (bncl.BNCLImagePosition, [A('x', U16, 0), A('y', U16, 0), A('alignment', ALIGN, TL),
                                                   A('imageID', U32, 0)], {}),
    'BNCL': (bncl.BNCL, [], dict(unk04=0, imagePositions=[])),
    'BNCL.fromImagePositions': (bncl.BNCL.fromImagePositions, [A('imagePositions', 'list', REQ), A('unk04', U16, 0)], {}),
    'Section': (code.MainCodeFile.Section, [A('data', 'bytes', REQ), A('ramAddress', U32, REQ), A('bssSize', U32, REQ),
                                            A('implicit', 'bool', False, kw=True)], {}),
    'MainCodeFile.fromSections': (code.MainCodeFile.fromSections, [A('sections', 'list', REQ), A('ramAddress', U32, REQ)], {}),
    'Overlay': (code.Overlay, [A('data', 'bytes', REQ), A('ramAddress', U32, REQ), A('ramSize', U32, REQ), A('bssSize', U32, REQ),
                               A('staticInitStart', U32, REQ), A('staticInitEnd', U32, REQ), A('fileID', U32, REQ),
                               A('compressedSize', (0, 0xFFFFFF), REQ), A('flags', [0, 2, 4, 255, 254], REQ)], {}),
    'Folder': (fnt.Folder, [A('folders', 'list', []), A('files', 'list', []), A('firstID', U16, 0)], {}),
    'ImageTile': (g2.ImageTile, [], dict(format=g2.ImageFormat.I8)),
    'TilemapTile': (g2.TilemapTile, [A('value', 'none', 0, '')],
                    dict(format=g2.TilemapFormat.I10H1V1P4, tileNum=0, hFlip=False, vFlip=False, paletteNum=0)),
    'TilemapTile.fromParameters': (g2.TilemapTile.fromParameters,
                                   [A('tileNum', (0, 1023), REQ), A('format', [g2.TilemapFormat.I10H1V1P4], g2.TilemapFormat.I10H1V1P4),
                                    A('hFlip', 'bool', False), A('vFlip', 'bool', False), A('paletteNum', (0, 15), 0)], {}),
    'NARC': (narc.NARC, [], dict(endiannessOfBeginning='<', files=[])),
    'NARC.fromFilesAndNames': (narc.NARC.fromFilesAndNames, [A('files', 'list', REQ)], dict(endiannessOfBeginning='<')),
    'NintendoDSRom': (rom.NintendoDSRom, [], ROM),
    'SDAT': (sarc.SDAT, [], dict(banks=[], groups=[], sequenceArchives=[], sequencePlayers=[], sequences=[], streamPlayers=[],
                                 streams=[], waveArchives=[], fatLengthsIncludePadding=False, fileAlignment=0x20,
                                 firstFileAlignment=None, padAtEnd=True, padSymbSizeTo4InSDATHeader=False)),
    'NoteDefinition': (sb.NoteDefinition, [A('waveID_dutyCycle', U16, 0, 'waveID'), A('waveArchiveIDID', U16, 0), A('pitch', U8, 60),
                                           A('attack', U8, 127), A('decay', U8, 127), A('sustain', U8, 127), A('release', U8, 127),
                                           A('pan', U8, 64), A('type', list(sb.NoteType), BOTH)], {}),
    'SingleNoteInstrument': (sb.SingleNoteInstrument, [A('noteDefinition', 'note', REQ)],
                             dict(bankOrderKey=0, dataMergeOptimizationID=0)),
    'RangeInstrument': (sb.RangeInstrument, [A('firstPitch', U8, REQ), A('noteDefinitions', 'list', REQ)],
                        dict(bankOrderKey=0, dataMergeOptimizationID=0, type=16)),
    'RegionalInstrument': (sb.RegionalInstrument, [A('regions', 'list', REQ)],
                           dict(bankOrderKey=0, dataMergeOptimizationID=0, type=17)),
    'Region': (sb.RegionalInstrument.Region, [A('lastPitch', U8, REQ), A('noteDefinition', 'note', REQ)], {}),
    'SBNK': (sb.SBNK, [FILE, A('unk02', U16, 0), A('waveArchiveIDs', 'list', [])],
             dict(inaccessibleInstruments={}, instruments=[])),
    'SBNK.fromInstruments': (sb.SBNK.fromInstruments, [A('instruments', 'list', REQ), A('unk02', U16, 0), A('waveArchiveIDs', 'list', [])],
                             dict(inaccessibleInstruments={})),
    'GroupEntry': (sg.GroupEntry, [A('type', list(sg.GroupEntryType), sg.GroupEntryType.SSEQ), A('options', 'none', 2, ''),
                                   A('id', U16, 0)],
                   dict(loadSBNKSWARsFrom=sg.SWARLoadMethod.SWAR_IDS, loadSSAR=False, loadSSEQ=False, loadSWAR=False)),
    'GroupEntry.fromFlags': (sg.GroupEntry.fromFlags,
                             [A('type', list(sg.GroupEntryType), REQ), A('id', U16, REQ), A('loadSSEQ', 'bool', False),
                              A('loadSBNKSWARsFrom', list(sg.SWARLoadMethod), sg.SWARLoadMethod.SWAR_IDS),
                              A('loadSWAR', 'bool', False), A('loadSSAR', 'bool', False)], {}),
    'SSEQ': (sq.SSEQ, [FILE] + ENTRY, dict(events=[], parsed=True, dataMergeOptimizationID=0)),
    'SSEQ.fromEvents': (sq.SSEQ.fromEvents, [A('events', 'list', REQ)] + ENTRY, dict(parsed=True, dataMergeOptimizationID=0)),
    'SSAR': (ssar.SSAR, [FILE, A('unk02', U16, 0), A('names', 'none', None, '')],
             dict(events=[], sequences=[], parsed=True, dataMergeOptimizationID=0)),
    'SSAR.fromEventsAndSequences': (ssar.SSAR.fromEventsAndSequences, [A('events', 'list', REQ), A('sequences', 'list', REQ),
                                                                       A('unk02', U16, 0)],
                                    dict(parsed=True, dataMergeOptimizationID=0)),
    'SSARSequence': (ssar.SSARSequence, [A('firstEvent_firstEventOffset', 'event', REQ, 'firstEvent')] + ENTRY[1:], dict(parsed=True)),
    'SSARSequence unparsed': (lambda *a, **k: ssar.SSARSequence(*a, parsed=False, **k),
                              [A('firstEvent_firstEventOffset', U32, REQ, 'firstEventOffset')] + ENTRY[1:], dict(parsed=False)),
    'SequencePlayer': (sqp.SequencePlayer, [A('maxSequences', U16, 1), A('channels', 'set', set()), A('heapSize', U32, 0)], {}),
    'STRM': (st.STRM, [FILE] + STREAM, dict(channels=[], isLooped=False, sampleRate=8000, waveType=ndspy.WaveType.PCM8, **ZERO)),
    'STRM.fromChannels': (st.STRM.fromChannels, [A('channels', 'list', REQ)] + STREAM,
                          dict(isLooped=False, sampleRate=8000, waveType=ndspy.WaveType.PCM8, loopOffset=0, time=0)),
    'StreamPlayer': (stp.StreamPlayer, [A('channels', 'list', [])], {}),
    'SWAV': (sw.SWAV, [], dict(data=b'', isLooped=False, loopOffset=0, sampleRate=8000, time=0, totalLength=0,
                               waveType=ndspy.WaveType.PCM8)),
    'SWAV.fromData': (sw.SWAV.fromData, [A('data', 'bytes', b''), A('waveType', list(ndspy.WaveType), ndspy.WaveType.PCM8, kw=True),
                                         A('isLooped', 'bool', False, kw=True), A('sampleRate', U16, 8000, kw=True),
                                         A('time', U16, 0, kw=True), A('loopOffset', U16, 0, kw=True),
                                         A('totalLength', U32, 0, kw=True)], {}),
    'SWAR': (swar.SWAR, [FILE, A('unk02', U16, 0)], dict(waves=[], dataMergeOptimizationID=0)),
    'SWAR.fromWaves': (swar.SWAR.fromWaves, [A('waves', 'list', REQ), A('unk02', U16, 0)], dict(dataMergeOptimizationID=0)),
    'Palette.fromColors': (tex.Palette.fromColors, [A('unk00', U16, REQ), A('unk02', U16, REQ), A('unkHeader02', U16, REQ), A('colors', 'list', REQ)], {}),
    'NSBTX': (tex.NSBTX, [], dict(textures=[], palettes=[])),
    'NSBTX.fromTexturesAndPalettes': (tex.NSBTX.fromTexturesAndPalettes,
                                      [A(n, U16, REQ) for n in ('unk08', 'unk10', 'unk18', 'unk20', 'unk2C', 'unk32')]
                                      + [A('textures', 'list', REQ), A('palettes', 'list', REQ)], {}),
}


def cases(tier):
    for n, (_, ps, others) in SPECS.items():
        yield dict(name=n, fn='spec', args={'name': n},
                   bounds=f'{n}: every value of {len(ps)} parameters, {len(others)} other attributes')
        yield dict(name='own-' + n, fn='own', args={'name': n}, bounds=f'{n}: two objects made alike, one changed')
    yield dict(name='names', fn='names', bounds='filename tables of new ROMs and archives')
    yield dict(name='logo', fn='logo', bounds='the logo of a new ROM')
    yield dict(name='duty', fn='duty', bounds='NoteDefinition: both names of the shared value')
    yield dict(name='string', fn='string', bounds='Message made from a string of 0 to 3 characters')
    yield dict(name='compressed', fn='compressed', bounds='a code file of 70 bytes, two of them free, compressed or not')


def value(e, a, tag):
    n = f'{a.name}-{tag}'
    k = a.kind
    if k == 'bool':
        return e.bool(n)
    if k == 'bytes':
        return e.bytes(n, 3)
    if k == 'list':
        return [e.int(n, 0, 255), 5]
    if k == 'set':
        return {e.concrete(e.int(n, 0, 2)), 15}
    if k == 'note':
        return sb.NoteDefinition(e.int(n, 0, 255), pitch=61)
    if k == 'event':
        return sq.RestSequenceEvent(e.int(n, 0, 255))
    if k == 'none':
        return a.default
    if isinstance(k, list):
        return e.choice(n, k)
    return e.int(n, *k)


def look(e, x, a, v, what):
    if not a.attr:
        return
    e.check(hasattr(x, a.attr), f'{what}: {a.attr} is there')
    got = getattr(x, a.attr)
    if a.kind in ('event', 'note'):
        e.check(got is v, f'{what}: {a.attr}')
    elif a.kind == 'set':
        e.check_eq(sorted(got), sorted(v), f'{what}: {a.attr}')
    else:
        e.check_eq(got, v, f'{what}: {a.attr}')


def spec(e, name):
    fn, ps, others = SPECS[name]
    req = [a for a in ps if a.default is REQ]
    opt = [a for a in ps if a.default is not REQ and a.attr]
    which = e.choice('given', ['none', 'positional', 'keywords'] + [a.name for a in opt if len(opt) > 1])
    vals = {}
    for a in ps:
        if a.default is REQ or which in ('positional', 'keywords') or which == a.name:
            vals[a.name] = value(e, a, 'v')
    if which == 'positional':
        x = fn(*[vals[a.name] for a in ps if not a.kw], **{a.name: vals[a.name] for a in ps if a.kw})
    elif which == 'keywords':
        x = fn(**vals)
    else:
        x = fn(*[vals[a.name] for a in req], **{a.name: vals[a.name] for a in opt if a.name in vals})
    for a in ps:
        look(e, x, a, vals.get(a.name, a.default), f'{name}({which})')
    for n, v in others.items():
        e.check(hasattr(x, n), f'{name}: {n} is there')
        e.check_eq(getattr(x, n), v, f'{name}({which}): {n}')


def own(e, name):
    """Objects made alike have nothing changeable in common, and an empty
    list is taken over like any other."""
    fn, ps, others = SPECS[name]
    req = [a for a in ps if a.default is REQ]
    attrs = [a.attr for a in ps if a.default is not REQ and a.attr] + list(others)
    v = [value(e, a, 'v') for a in req]
    x, y = fn(*v), fn(*v)
    for n in attrs:
        if isinstance(getattr(x, n), list):
            before = len(getattr(y, n))
            getattr(x, n).append(e.int('new-' + n, 0, 255))
            e.check_eq(len(getattr(y, n)), before, f'{n} of another object')
            e.check_eq(len(getattr(fn(*v), n)), before, f'{n} of a later object')
    e.check(x is not y, 'two objects')
    for a in ps:
        if a.kind == 'list' and a.attr:
            kept = []
            for given in ([e.int('item-' + a.name, 0, 255)], []):
                w = {b.name: q for b, q in zip(req, v)}
                w[a.name] = given
                z = fn(**w)
                given.append(7)
                e.check(isinstance(getattr(z, a.attr), list), f'{a.attr} is a list')
                kept.append(len(getattr(z, a.attr)) == len(given))
            e.check_eq(kept[1], kept[0], f'{a.attr} follows an empty list as it follows others')


def names(e):
    for x in (narc.NARC(), rom.NintendoDSRom(), narc.NARC.fromFilesAndNames([e.bytes('f', 2)])):
        e.check(x.filenames.folders == [] and x.filenames.files == [], 'no names')
        e.check_eq(x.filenames.firstID, 0, 'first ID')


def logo(e):
    crc = 0xFFFF
    for b in rom.NintendoDSRom().nintendoLogo:
        crc ^= b
        for _ in range(8):
            crc = crc >> 1 ^ (0xA001 if crc & 1 else 0)
    e.check_eq(crc, 0xCF56, 'checksum of the logo')
    e.check_eq(len(rom.NintendoDSRom().nintendoLogo), 156, 'length of the logo')
    e.out('duty', e.int('n', 0, 1))


def duty(e):
    v, w, t = e.int('v', 0, 65535), e.int('w', 0, 65535), e.choice('t', list(sb.NoteType))
    x = sb.NoteDefinition(v, type=t)
    e.check_eq(x.waveID, v, 'wave')
    e.check_eq(x.dutyCycle, v, 'duty cycle')
    x.waveID = w
    e.check_eq(x.dutyCycle, w, 'duty cycle set through the wave')
    x.dutyCycle = v
    e.check_eq(x.waveID, v, 'wave set through the duty cycle')


def string(e):
    s = e.str('s', e.pick('n', 0, 3), 32, 0xFFFF)
    x = bmg.Message(e.bytes('i', 2), s)
    e.check(len(x.stringParts) == 1, 'one part')
    e.check_eq(x.stringParts[0], s, 'the string')


def compressed(e):
    d = bytes([e.int('a', 200, 255), e.int('b', 100, 150)]) + bytes(60) + b'\x01\x02\x03\x04' * 2
    ram = e.int('ram', 0, 0x0FFFFFFF)
    want = code.MainCodeFile(d, ram)
    c = codeCompression.compress(d)
    e.check(len(c) < len(d), 'compressed')
    for x in (code.MainCodeFile.fromCompressed(d, ram), code.MainCodeFile.fromCompressed(d, ram, None),
              code.MainCodeFile.fromCompressed(c, ram)):
        objs.same(e, objs.picture(want), objs.picture(x), 'code file')

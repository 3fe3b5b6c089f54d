"""Jobs, bounds and vacuity requirements per property."""
SPEC_N = 54
FIXED = {i: 0 for i in (0, 1, 2, 3, 4, 5, 9, 13, 18, 21)}
FIXED.update({i: 1 for i in (6, 8, 10, 11, 12, 15, 16, 17, 19, 20, 22, 24, 25, 26, 27, 28, 29, 31, 32, 33, 34, 36, 37, 38, 41, 42, 43, 44)})
FIXED.update({7: 2, 14: 2, 35: 2, 39: 2, 40: 2, 30: 3, 23: 8})
CUT, BITIMG, RASTER, BARCODE, LENH, LENN, SUB2D, GFX, GFXL = range(45, 54)
NSUB2D, NGFX = 40, 22
HDR = {CUT: 2, BITIMG: 3, RASTER: 5, BARCODE: 2, LENH: 2, LENN: 2, SUB2D: 4, GFX: 4, GFXL: 6}
SHARDS = [(0, 8), (9, 9), (10, 10), (11, 11), (12, 12), (13, 13), (14, 15), (16, 16), (17, 23), (24, 24), (25, 26), (27, 27), (28, 28), (29, 29), (30, 255)]
MEANING = {}
PROPS = {}

def streams(entry, tier):
    j = []
    top = 6 if tier == 'quick' else 7
    for n in range(top, 4, -1):
        for lo, hi in SHARDS: j.append('%s 0 %d %d %d' % (entry, n, lo, hi))
    for n in range(0, 5): j.append('%s 0 %d 0 255' % (entry, n))
    x = 0 if tier == 'quick' else 1
    for i in range(SPEC_N):
        base = FIXED.get(i, HDR.get(i))
        for n in range(0, base + 3 + x + (1 if i in HDR else 0)): j.append('%s %d %d 0 255' % (entry, i + 1, n))
    return j
B_STREAM = {'quick': 'all byte streams of length 0..6; all streams OPCODE ++ n arbitrary bytes for each of the 54 supported opcodes, n up to its parameter/header bytes + 2 (+ 3 for length-carrying commands)',
            'thorough': 'all byte streams of length 0..7; all streams OPCODE ++ n arbitrary bytes for each of the 54 supported opcodes, n up to its parameter/header bytes + 3 (+ 4 for length-carrying commands)'}
MEANING.update({'101': 'command list has no Begin/End', '102': 'first command is not Begin Print', '103': 'last command is not End Print', '104': 'Begin/End Print in the middle',
  '201': 'bytes of the commands differ in number from the stream', '202': 'bytes of the commands differ from the stream', '203': 'Begin/End carry bytes', '204': 'command without bytes',
  '301': 'wrong number of commands', '302': 'leading text not parsed as text', '303': 'leading text bytes differ', '309': 'payload of a command that declares more of it than there is was taken for commands', '310': 'bytes of an unfinished command differ', '304': 'subcommand not recognised', '305': 'command not recognised as itself', '306': 'command does not carry exactly its bytes', '307': 'payload of the command differs', '308': 'bytes after the command parsed differently',
  '401': 'reused parser gives a different number of commands', '402': 'reused parser gives different commands'})
PROPS['P01'] = dict(jobs=lambda t: streams('p01_total', t), bounds=B_STREAM, covers=lambda t: [1, 2], asserts=[101, 102, 103, 104], outside='longer streams')
PROPS['P02'] = dict(jobs=lambda t: streams('p02_bytes', t), bounds=B_STREAM, covers=lambda t: [1, 2], asserts=[201, 202, 203], outside='longer streams')

def p03(tier):
    j = []
    t = 2 if tier == 'quick' else 3
    big = tier != 'quick'
    def add(i, v, s, lead=1): 
        j.append('p03_frame %d %d %d %d %d' % (i, v, s, t if s < 100 else 1, lead))
    for i in FIXED: j.append('p03_frame %d 0 0 3 0' % i); j.append('p03_frame %d 0 0 %d 2' % (i, t))
    for v in (0, 1): add(CUT, v, 0); add(CUT, v, 0, 0)
    for v in (0, 1):
        for s in [0, 1, 2, 3, 255, 256, 257, 600] + ([4, 5, 1000, 2049] if big else []): add(BITIMG, v, s)
        for k in range(3, 16): add(BITIMG, v, 1 << k, 0)
        add(BITIMG, v, 65535, 0)
    for k in range(3, 16): add(RASTER, 1, 1 << k, 0); add(RASTER, 1 << k, 1, 0)
    add(RASTER, 65535, 1, 0); add(RASTER, 1, 65535, 0)
    for k in range(3, 7): add(BARCODE, 1, 1 << k, 0)
    for k in range(3, 16):
        for i in (LENH, LENN): add(i, 0, (1 << k) + 2, 0)
        for i, v in [(SUB2D, 3), (SUB2D, 20), (GFX, 1), (GFX, 17), (GFXL, 1), (GFXL, 17)]: add(i, v, (1 << k) - 2, 0)
    for k in (16, 17): add(GFXL, 17, (1 << k) - 2, 0)
    for rows, cols in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 2), (3, 1), (1, 3), (256, 1), (1, 256), (257, 2), (2, 257)] + ([(300, 3), (3, 300), (513, 2), (4, 2)] if big else []): add(RASTER, rows, cols)
    for s in [0, 1, 2, 3, 4, 40, 300] + ([5, 6, 1000] if big else []): add(BARCODE, 0, s)
    for s in [0, 1, 2, 3, 4, 127, 128, 255] + ([5, 6, 200] if big else []): add(BARCODE, 1, s)
    for i in (LENH, LENN):
        for s in ([0, 1] if i == LENN else []) + [2, 3, 4, 256, 259] + ([5, 512] if big else []): add(i, 0, s)
    for v in range(NSUB2D):
        for s in [0, 1, 2, 3, 253, 254, 258] + ([4, 5, 600] if big else []): add(SUB2D, v, s, 0)
        add(SUB2D, v, 1)
    for i in (GFX, GFXL):
        for v in range(NGFX):
            for s in [0, 1, 2, 3, 12, 254, 258] + ([4, 5, 600] if big else []): add(i, v, s, 0)
            add(i, v, 1)
    for s in [65533, 65534, 65536, 66000]: j.append('p03_frame %d 17 %d 1 0' % (GFXL, s))
    for n in (0, 1, 5) + ((2, 8) if big else ()):
        for i, vs in [(BITIMG, 2), (RASTER, 2), (BARCODE, 1), (LENH, 1), (LENN, 1), (SUB2D, NSUB2D), (GFX, NGFX), (GFXL, NGFX)]:
            for v in range(vs): j.append('p03_short %d %d %d' % (i, v, n))
    return j
PROPS['P03'] = dict(jobs=p03, covers=lambda t: [1, 2, 3] + [1000 + i for i in range(SPEC_N)], asserts=[301, 302, 303, 304, 305, 306, 307, 308, 309, 310],
    bounds={'quick': 'each of the 54 opcodes (40 2D-symbol and 22 graphics subcommands) with every value of its parameter bytes, payload sizes 0..4 with arbitrary bytes and 127..66000 (around every length-byte boundary) with arbitrary first/last bytes, after 0..2 arbitrary text bytes, followed by arbitrary 1..3 bytes; every value of each length field that declares more than the 0, 1 and 5 payload bytes the stream has',
            'thorough': 'as quick with more payload sizes (to 6 and 2049) and 3 arbitrary following bytes'},
    outside='payload sizes not listed; GS k systems outside 0..6 and 65..79 (not implemented by the project), GS ( G (undocumented)')

def p04(tier):
    j = []
    n = [(0, 1, 0, 1), (0, 2, 0, 1), (0, 3, 0, 1), (0, 1, 0, 2), (0, 2, 0, 2)] + ([(0, 3, 0, 2), (0, 2, 0, 3)] if tier != 'quick' else [])
    for a in n: j.append('p04_reuse %d %d %d %d' % a)
    for i in range(SPEC_N):
        base = FIXED.get(i, HDR.get(i))
        for k in range(0, base + (2 if i in HDR else 1)): j.append('p04_reuse %d %d 0 %d' % (i + 1, k, 2 if (base < 3 and i not in HDR) or tier != 'quick' else 1))
    cut = {CUT: 2, BITIMG: 4, BARCODE: 3 if tier != 'quick' else 2, SUB2D: 5, GFX: 5, GFXL: 7}
    for a in cut:
        for b in cut: j.insert(0, 'p04_reuse %d 2 %d %d' % (a + 1, b + 1, cut[b] - (tier == 'quick' and a == CUT)))
    return j
PROPS['P04'] = dict(jobs=p04, covers=lambda t: [1], asserts=[401, 402],
    bounds={'quick': 'first stream: any 1..3 bytes, or any opcode followed by 0..k arbitrary bytes (cut anywhere in its header); second stream: any 1..2 bytes or a length-carrying opcode with its header and one more byte arbitrary',
            'thorough': 'as quick, with up to 3 arbitrary bytes on either side'}, outside='more than two streams through one parser')
# ---- P06 / P08: settings
FIELDS = 'CW CH SET TABLE DEC_NAME DEC_LANG DEC_UTF8 FONT_SIZE JUSTIFY FONT BOLD ITALIC UNDERLINE STRIKE INVERT WMULT HMULT UPSIDE SPACING COLOR BACKGROUND SHADOW_COLOR SHADOW SMOOTHING TABS0 TABS1 TABS2 TABS3 NTABS HRI BAR_W BAR_H BAR_FONT SYMBOL QR_MODEL QR_EC QR_SIZE PDF_COLS PDF_ROWS PDF_W PDF_RH PDF_EC PDF_TRUNC MAXI GS1_W GS1_MAX COMP_W COMP_MAX COMP_FONT AZ_MODE AZ_LAYERS AZ_SIZE AZ_EC DM_TYPE DM_COLS DM_ROWS DM_W DPI VMU HMU GCOUNT STORED BUFFERED PAPER COL1 COL2 COL3 AREA_W PAPER_X PAPER_Y PAPER_W X Y PAGE PDIR PPREV LX LY LW LH RX RY RW RH PX PY PW PH'.split()
FI = {n: i for i, n in enumerate(FIELDS)}
FMT = 'core::fmt::write has an empty body (messages of errors are not compared)'
MEANING.update({str(600 + i): 'setting command leaves %s at another value than documented' % n for i, n in enumerate(FIELDS)})
MEANING.update({str(800 + i): 'ESC @ leaves %s at another value than a fresh printer' % n for i, n in enumerate(FIELDS)})
MEANING.update({'699': 'setting command not executed', '897': 'ESC @ erased NV graphics', '898': 'ESC @ kept download graphics', '899': 'ESC @ not executed'})
def p06(tier):
    j = []
    for i in range(43):
        if i in (12, 13) or tier != 'quick': j += ['p06_setting %d %d %d' % (i, a, a + 31) for a in range(0, 256, 32)]
        else: j.append('p06_setting %d 0 255' % i)
    return j
B1 = 'every parameter byte of each of the 43 setting commands, from an arbitrary state (every setting an arbitrary value of its type, motion units 1..255): one step, so histories of any length'
PROPS['P06'] = dict(jobs=p06, covers=lambda t: [100 + i for i in range(43)], asserts=[600 + i for i in range(len(FIELDS))] + [699], bounds={'quick': B1, 'thorough': B1}, stubs=[FMT],
    outside='tab lists are checked with one tab position; motion unit commands are in P07, page mode in P18')
B2 = 'one ESC @ from an arbitrary state: every text, barcode, 2D-code setting, motion units, dpi and print position an arbitrary value of its type, a stored symbol, one NV, one download and one buffered graphic'
PROPS['P08'] = dict(jobs=lambda t: ['p08_init'], covers=lambda t: [1], asserts=[800 + i for i in range(FI['X']) if i != FI['STORED']] + [897, 898, 899, 800 + FI['X'], 800 + FI['Y']], bounds={'quick': B2, 'thorough': B2}, stubs=[FMT], outside='page mode')
# ---- P05: decoding
LANGS = list(range(18)) + list(range(66, 76)) + [82]
CODE_PAGES = [0, 1, 2, 3, 4, 5, 11, 12, 13]
def p05(tier):
    big = tier != 'quick'
    j = ['p05_utf8 0 0 0 0 %d 0 0' % n for n in ([5] if big else []) + [4, 3, 2, 1, 0]]
    for order in (0, 1, 2):
        for a, b in [(0, 3), (4, 7), (8, 11), (12, 15), (16, 66), (67, 70), (71, 74), (75, 255)]: j.append('p05_page 0 255 %d %d 1 %d 0' % (a, b, order))
    for p in CODE_PAGES:
        for l in LANGS if big else [0]: j.append('p05_page %d %d %d %d 2 0 1' % (p, p, l, l))
    for l in LANGS: j.append('p05_page 2 2 %d %d 2 0 1' % (l, l))
    j.append('p05_page 0 255 0 255 0 0 0')
    for p in CODE_PAGES if big else (0, 13): j.insert(0, 'p05_page %d %d 0 0 3 0 1 1' % (p, p))
    for p in CODE_PAGES if big else (0,): j.insert(0, 'p05_page %d %d 0 0 4 1 1 2' % (p, p))
    for p, l in [(0, 0), (2, 2), (3, 7), (13, 1)] + ([(p, 4) for p in CODE_PAGES] if big else []):
        for at in range(12): j.append('p05_page %d %d %d %d 12 %d 1 %d' % (p, p, l, l, at % 2, at + 3))
    return j
MEANING.update({'501': 'code page commands not executed', '502': 'number of decoded characters differs from the code page', '503': 'decoded character differs from the code page / national set', '504': 'UTF-8 character missing', '505': 'UTF-8 character differs', '506': 'ill-formed UTF-8 not replaced', '507': 'more characters than UTF-8 text'})
PROPS['P05'] = dict(jobs=p05, covers=lambda t: [1, 2, 3, 10, 13, 14], asserts=[501, 502, 503, 504, 505, 506, 507],
    bounds={'quick': 'every code page number 0..254 and every national set number 0..255 (both orders of the commands, also after UTF-8 was selected) with every text byte; every two text bytes for each code page and for each national set; every three and four byte UTF-8 like sequence, and every two neighbouring bytes of 12 byte texts in four settings; UTF-8 selected: every byte string of length 0..4',
            'thorough': 'as quick, every two text bytes for each pair of code page and national set; UTF-8 byte strings to length 5'},
    outside='longer strings; katakana block symbols, PC851 and PC853 and the Indian/Arabic/Vietnamese sets are compared with a transcription, the others with independent codec tables')
# ---- P07: positions
def p07(tier):
    j = []
    for page in (1, 0):
        for c in range(13):
            if c in (4, 5) and page: j += ['p07_move %d 1 0 %d' % (c, d) for d in range(4)]
            elif c == 7: j += ['p07_move 7 %d %d 4' % (page, d) for d in range(3)]
            else: j.append('p07_move %d %d 0 4' % (c, page))
    return j
MEANING.update({str(700 + i): 'feed or position command leaves %s at another value than documented' % n for i, n in enumerate(FIELDS)})
MEANING['799'] = 'feed or position command not executed'
B3 = 'every parameter value of LF, LF LF, CR, ESC J, ESC d, ESC e, ESC $, GS $, GS \\, GS P, GS V and LF before ESC J, from every position (24 bits), motion unit (1..360), line spacing, resolution (180, 203, 360), and in page mode every direction and every 16 bit print/page area: one step, so histories of any length that keep positions below 2^24'
PROPS['P07'] = dict(jobs=p07, covers=lambda t: [100 + i for i in range(13)] + [120 + i for i in range(13)], asserts=[700 + i for i in range(len(FIELDS))] + [799], bounds={'quick': B3, 'thorough': B3}, stubs=[FMT],
    outside='positions of 2^24 dots and more; line feeds after printed text (P16)')
# ---- P09: images
def p09(tier):
    big = tier != 'quick'
    j = []
    W = [0, 1, 2, 3, 5, 40, 255, 256, 300] + ([4, 7, 8, 9, 17, 33, 128, 513, 600] if big else [])
    for m in (0, 1, 32, 33):
        for w in W: j.append('p09_image 0 %d %d %d' % (w, 8 if m < 32 else 24, m))
    for m in (0, 1, 2, 3, 48, 49, 50, 51):
        for w, h in [(8, 1), (8, 5), (16, 3), (24, 2), (8, 256), (2048, 2), (0, 3), (8, 0)] + ([(40, 7), (8, 600), (4096, 1)] if big else []): j.append('p09_image 1 %d %d %d' % (w, h, m))
    D = [(1, 1), (2, 3), (3, 2), (7, 3), (8, 2), (9, 5), (16, 4), (17, 3), (31, 9), (3, 8), (3, 9), (5, 16), (2, 17), (4, 25), (257, 3), (3, 257), (300, 2), (0, 2), (2, 0), (0, 0)]
    if big: D += [(w, h) for w in range(1, 19) for h in range(1, 19)] + [(513, 2), (2, 513)]
    for w, h in D:
        for nv in (0, 1):
            for k in (2, 3): j.append('p09_image %d %d %d 1 %d' % (k, w, h, nv))
        for st in (17, 18, 33, 34):
            for k in (4, 5): j.append('p09_image %d %d %d %d %d' % (k, w, h, st, st & 1))
    for k in (2, 3):
        for w, h, n in [(9, 1, 2), (1, 9, 2), (3, 3, 2), (2, 1, 3), (1, 2, 3), (0, 3, 2), (1, 1, 4)] + ([(4, 3, 2), (3, 1, 3)] if big else []): j.insert(0, 'p09_image %d %d %d %d 0' % (k, w, h, n))
    for n in [0, 1, 2, 3, 7, 24] + ([4, 5, 6, 8, 60] if big else []):
        for k in range(6):
            for a in {0: (0, 1, 32, 33), 1: (0, 1, 2, 3, 9), 2: (0, 1, 2, 3, 4), 3: (0, 1, 2, 3, 4), 4: (0, 17, 33, 18, 34, 255), 5: (0, 17, 33, 18, 34, 255)}[k]:
                for nv in ((0, 1) if k in (2, 3) else (0,)): j.append('p09_bad %d %d %d %d' % (k, n, a, nv))
    for f in (67, 68, 83, 84, 112, 113):
        for n in range(0, 8): j.append('p09_cut %d %d' % (f, n))
    return j
MEANING.update({'900': 'image size differs from header and magnification', '901': 'pixel count differs from the image size', '902': 'image is upside down', '903': 'dot printed where the data has none, or missing', '904': 'dot has another colour than commanded', '910': 'image data printed as something else', '911': 'image not printed exactly once or reported as an error',
  '920': 'data of the wrong length printed as an image', '921': 'data of the wrong length not reported as an error', '930': 'cut off graphics command printed an image', '931': 'cut off graphics command reported more than once'})
PROPS['P09'] = dict(jobs=p09, covers=lambda t: [10, 11, 12, 13, 14, 15, 20, 21, 22, 23, 24, 25, 30], asserts=[900, 901, 902, 903, 904, 911, 921, 931], stubs=[FMT],
    bounds={'quick': 'ESC * (modes 0, 1, 32, 33; 0..300 columns), GS v 0 (all modes; up to 2048 x 256 dots), GS ( L 67/68/83/84 (1..4 colour layers) and 112/113 (magnification 1..2) with 20 sizes up to 300 dots: every value of the image data (of images over 120 bytes the first and last 60 bytes), all colour numbers; every 16 bit width and height with 0..24 data bytes that do not match; commands cut off within their parameters',
            'thorough': 'as quick with all sizes up to 18x18 and longer data'},
    outside='magnification numbers other than 1 and 2; images with several layers have at most 12 dots; print magnification of stored graphics (not implemented)')
# ---- P10: stored graphics
def p10(tier):
    big = tier != 'quick'
    j = ['p10_key %d %d %d' % (a, b, c) for a in (0, 1, 2) for b in (0, 1) for c in (0, 1)]
    keyed = (1, 2, 3, 8)
    import itertools
    def seq(*s): j.append('p10_store ' + ' '.join(map(str, list(s) + [0] * (9 - len(s)) + [len(j) % 2])))
    for n in (0, 1, 2): 
        for s in itertools.product(range(1, 10), repeat=n):
            for p in (7, 8):
                if p == 7 and n == 2 and not (set(s) & {6, 9, 7}): continue
                seq(*s, p)
    for s in itertools.product(range(1, 10), repeat=3):
        k = sum(x in keyed for x in s)
        if s[0] in (1, 2) and not (set(s) & {6, 7, 9}) and (k < 3 or s[0] == 1 or big): seq(*s, 8)
        if s[0] in (6, 9) and not (set(s) & {1, 2, 3, 4}): seq(*s, 7); seq(*s, 7, 7)
        if big and k < 3: seq(*s, 8); seq(*s, 7)
    # many stored at once: seven pictures in the buffer (10), ten keys (11) printed again (12)
    for s in [(10, 7), (10, 10, 7, 7), (10, 9, 7, 6, 7), (6, 10, 6, 7, 10, 7), (11, 12), (11, 1, 12, 8), (1, 11, 8, 12), (11, 3, 12), (11, 4, 12), (11, 5, 12), (11, 11, 12, 12), (1, 11, 10, 5, 12, 8, 7), (11, 10, 4, 12, 7)]: seq(*s)
    j.sort(key=lambda x: -sum(c in '1238' for c in x.split()[1:9]))
    return j
MEANING.update({'1001': 'number of printed graphics differs from those defined, buffered and not deleted', '1002': 'wrong number of reported errors', '1003': 'graphics command printed something else', '1004': 'key codes name the wrong graphic', '1010': 'printed graphic has another size than stored', '1011': 'pixel count differs from the size', '1012': 'stored graphic is upside down', '1013': 'printed graphic differs from the stored one', '1014': 'printed graphic has another colour than stored'})
PROPS['P10'] = dict(jobs=p10, covers=lambda t: [1, 2, 3], asserts=[1001, 1002, 1003, 1004, 1010, 1011, 1013, 1014], stubs=[FMT, 'hash seeds are fixed'],
    bounds={'quick': 'all histories of up to 2 commands (define raster/column, delete, delete all, ESC @, store in buffer, print buffer, print) and those of 3 starting with a define or store, followed by a print: every storage, four key code pairs, every image byte; seven and more pictures in the buffer, ten keys in use; plus every first key code with any one bit of the print or delete key codes flipped',
            'thorough': 'as quick with all histories of 3 commands followed by a print'}, outside='longer histories')
# ---- P11: UPC-E
def p11(tier):
    j = []
    for n in (6, 7, 8): 
        for form in (0, 1) if n == 6 or tier != 'quick' else (1,): j += ['p11_upce %d %d 3 %d' % (n, form, d) for d in range(10)]
    for n in (11, 12):
        for form in (0, 1) if tier != 'quick' else (n - 11,): j = ['p11_upce %d %d 2 %d' % (n, form, a) for a in range(12)] + j
    for n in (6, 7, 8, 11, 12):
        for at in range(n): j.append('p11_upce %d %d 1 %d' % (n, at & 1, at))
    for n in [1, 2, 3, 4, 5, 9, 10, 13, 14, 20, 100, 255]: j.append('p11_upce %d 1 %d 0' % (n, n > 20)); j.append('p11_upce %d 0 1 %d' % (n, n - 1))
    return j
MEANING.update({'1100': 'symbol printed for data that is no UPC-E number', '1101': 'symbol printed for a number that has no UPC-E form (or a wrong check digit)', '1102': 'number with a UPC-E form rejected', '1103': 'zero suppression is not inverse to expansion', '1104': 'UPC-E modules differ from the standard', '1105': 'human readable text differs from the data',
  '1200': 'barcode not reported exactly once', '1201': 'barcode command printed something else', '1210': 'symbol printed for data the system cannot encode', '1211': 'data the system can encode rejected', '1212': 'modules differ from the symbology', '1213': 'human readable text differs from the data', '1214': 'Codabar character drawn as another', '1215': 'CODE93 check character differs', '1216': 'symbol printed by a system that is not implemented',
  '1220': 'barcode not drawn as bars', '1221': 'bar differs from the modules', '1222': 'human readable text missing, doubled or at the wrong side', '1223': 'bar off the paper', '1224': 'position after the barcode', '1225': 'human readable text differs'})
PROPS['P11'] = dict(jobs=p11, covers=lambda t: [1, 2, 10], asserts=[1100, 1103, 1104, 1105, 1200], stubs=[FMT],
    bounds={'quick': 'every number of 6, 7, 8, 11 and 12 digits (11 counted, 12 NUL-terminated); one arbitrary byte at each position of those; every digit string of the other lengths to 20 listed in the jobs, and 100 and 255 bytes',
            'thorough': 'as quick, every length in both forms of GS k'}, outside='more than one non-digit')
# ---- P12: barcodes
def p12(tier):
    big = tier != 'quick'
    import itertools
    j = []
    def one(sys, n, b=0, forms=None):
        for form in forms or ((0, 1) if sys <= 6 else (1,)):
            for p in range(n): j.append('p12_symbol %d %d %d %d 1 %d' % (sys, form, n, b, p))
    for sys, ls in ((0, (11, 12)), (2, (12, 13)), (3, (7, 8))):
        for n in ls:
            one(sys, n); one(sys, n, 1, (1,))
            for p in itertools.combinations(range(n), 2): j.append('p12_symbol %d %d %d %d 102 %d %d' % (sys, n & 1, n, 0, *p))
            if big:
                for p in itertools.combinations(range(n), 3): j.insert(0, 'p12_symbol %d %d %d %d 103 %d %d %d' % (sys, n & 1, n, 1, *p))
        for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 255]: j.append('p12_symbol %d 1 %d 0 1 %d' % (sys, n, n - 1))
    for sys in (4, 5, 6, 7, 8):
        for b in (0, 1, 2) if sys == 8 else (0, 1):
            for n in (1, 2, 3, 4, 6, 7, 8) + ((10, 15) if big else ()): one(sys, n, b)
            for n in (2, 3, 4, 5, 6, 7, 8) + ((9, 12) if big else ()):
                for p in itertools.combinations(range(n), 2):
                    if p[1] == p[0] + 1 or p == (0, n - 1) or big: j.append('p12_symbol %d 1 %d %d 2 %d %d' % (sys, n, b, *p))
        for n in (254, 255):
            for p in (0, 1, 100, n - 2, n - 1): j.append('p12_symbol %d 1 %d 0 1 %d' % (sys, n, p))
        if sys != 8 or big: j.insert(0, 'p12_symbol %d 1 3 0 3 0 1 2' % sys)
    for sys in (0, 2, 3, 4, 5, 6, 7, 8): j.append('p12_symbol %d 1 0 0 0' % sys)
    for m in range(74, 80):
        for n in (0, 1, 2, 13): j.append('p12_other %d %d' % (m, n))
    return j
PROPS['P12'] = dict(jobs=p12, covers=lambda t: [10, 12, 13, 14, 15, 16, 17, 18, 30, 32, 33, 34, 35, 36, 37, 38, 40, 41], asserts=[1200, 1212, 1213, 1216], stubs=[FMT + '; not for UPC-A and CODE128, whose data goes through format!'],
    bounds={'quick': 'UPC-A, EAN-13, EAN-8, CODE39, ITF, Codabar, CODE93, CODE128 with two fixed payloads of every valid length to 13 (others 1..8, 254, 255): any byte at each position, any two bytes at neighbouring positions and at both ends (any two digits at every two positions of the EAN systems), any three bytes as a whole payload; both forms of GS k; every invalid length to 15',
            'thorough': 'as quick with any three digits at every three positions of the EAN systems and any two bytes at every two positions of the others'},
    outside='payloads differing from the fixed ones at more positions; GS1 systems (not implemented by the project: reported as errors)')
# ---- P16: text layout
def p16(tier):
    big = tier != 'quick'
    j = []
    def add(just, font, mode, *segs): j.append('p16_layout %d %d %d ' % (just, font, mode) + ' '.join('%d %d %d' % s for s in segs))
    for just in (0, 1, 2):
        for font in (0, 1):
            if font == 0 or big or just == 1:
                for wm, hm, n in [(1, 1, 1), (1, 1, 2), (2, 1, 2), (3, 2, 2), (8, 8, 1), (1, 1, 3), (4, 1, 3)]: add(just, font, 0, (wm, hm, n))
                add(just, font, 1, (1, 1, 1)); add(just, font, 1, (2, 3, 2))
                add(just, font, 2, (1, 1, 3)); add(just, font, 2, (2, 1, 5))
                add(just, font, 3, (1, 1, 1)); add(just, font, 3, (2, 1, 2))
                add(just, font, 4, (1, 1, 2)); add(just, font, 4, (3, 1, 2))
                add(just, font, 6, (1, 1, 3)); add(just, font, 6, (2, 2, 2))
                for n in (1, 2, 3, 4, 5): add(just, font, 5, (1 + n % 3, 1 + n % 2, n))
        add(just, just & 1, 0, (1, 1, 4))
        add(just, 0, 0, (1, 1, 2), (2, 3, 2)); add(just, 1, 0, (2, 2, 1), (1, 1, 1), (1, 3, 1)); add(just, 0, 1, (3, 1, 1), (1, 1, 1)); add(just, 0, 3, (1, 1, 1), (2, 1, 1))
        add(just, 0, 5, (1, 1, 4), (2, 2, 1)); add(just, 0, 4, (1, 1, 1), (2, 2, 1)); add(just, 0, 2, (1, 1, 2), (2, 1, 3))
    add(0, 0, 3, (1, 1, 3)); add(0, 0, 2, (1, 1, 6)); add(1, 0, 2, (2, 1, 5)); add(1, 0, 1, (1, 1, 2)); add(2, 1, 1, (3, 1, 2))
    if big:
        for just in (0, 1, 2):
            add(just, 0, 1, (2, 1, 3)); add(just, 0, 0, (1, 1, 5)); add(just, 0, 0, (3, 1, 2), (1, 1, 1), (2, 2, 2)); add(just, 1, 3, (1, 1, 3)); add(just, 0, 2, (1, 1, 7)); add(just, 0, 6, (1, 1, 4)); add(just, 0, 4, (2, 1, 4)); add(just, 1, 0, (2, 2, 2), (1, 1, 3))
    w = lambda s: sum(int(x) for x in s.split()[6::3]) + (3 if s.split()[3] in '1236' else 0)
    return sorted(j, key=lambda s: -w(s))
MEANING.update({'1600': 'text lost, doubled or split over another number of lines', '1601': 'text command printed something else', '1602': 'size of a span is not that of its characters', '1603': 'line holds other characters than fit', '1604': 'characters out of order or replaced', '1605': 'character at the wrong column', '1606': 'character at the wrong height', '1607': 'line not offset as its justification demands', '1608': 'line reported with another height', '1609': 'line reported with another justification',
  '1610': 'character size differs', '1611': 'font differs', '1612': 'bold, italic, inverted or upside down differs', '1613': 'underline or strike differs', '1614': 'colour differs', '1615': 'magnification differs', '1640': 'spans of a line overlap', '1641': 'line is not below the lines before it', '1642': 'line reaches beyond the paper'})
PROPS['P16'] = dict(jobs=p16, covers=lambda t: [1, 2, 3, 4, 5], asserts=list(range(1602, 1609)) + [1600] + list(range(1609, 1616)) + [1640, 1641, 1642], stubs=[FMT],
    bounds={'quick': 'texts of up to 4 bytes (printable ASCII, LF, CR, HT; words of up to 6 characters) as one, two or three runs of different magnification (1..8), in fonts A and B, each justification; every paper width to 65535 dots, start position, vertical position and line spacing; every first three tab stops; every byte above 127 in code page 437; standard and page mode',
            'thorough': 'texts of up to 5 bytes, words of up to 7 characters, three runs of up to two bytes'},
    outside='longer texts; proportional fonts')
# ---- P17: order
SETS, ACTS = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 19, 39], [15, 20, 21, 22, 24, 25, 26, 27, 28]
def p17(tier):
    big = tier != 'quick'
    items = SETS + ACTS + [2, 1]
    j = []
    for w in (40, 609) + ((20,) if big else ()):
        for a in items:
            for b in items: j.append('p17_order %d 1 %d %d 1 2 1' % (w, a, b))
    for a in (30, 31, 32):
        for i in items:
            j.append('p17_order 609 %d 23 %d 1 2 1' % (a, i)); j.append('p17_order 609 %d 1 2 1 %d 1 2 1' % (a, i)); j.append('p17_order 60 %d 23 %d 23 2 1' % (a, i))
            if i in SETS:
                for k in SETS if big else (3, 5, 13): j.append('p17_order 300 %d 1 %d 1 %d 1' % (a, i, k))
    for a in items:
        for b in SETS if not big else items: j.append('p17_order 30 23 %d 23 %d 1' % (a, b))
    mid = SETS + [2, 1, 25, 26, 28, 38]
    for i in INLINE:
        for a in mid:
            j.append('p17_order 60 1 %d %d 1 2 %d 1' % (a, i, i))
            j.append('p17_order 60 1 %d 16 %d %d 1 2 1' % (a, i, a))
        for k in INLINE:
            for a in mid if big else (16, 2, 38): j += ['p17_order 60 %d %d %d 23 2 1' % (i, a, k), 'p17_order 90 23 %d %d %d 7 2 %d 1' % (a, i, k, i)]
    return j
INLINE = [33, 34, 35, 36, 37]
MEANING.update({'1700': 'wrong number of reported errors', '1701': 'not exactly one output', '1702': 'print not ended once, as the last thing', '1703': 'something printed before the print began', '1704': 'something lost or printed twice', '1705': 'things printed out of order', '1706': 'character replaced or out of order', '1707': 'character at the wrong column', '1708': 'character at the wrong height', '1709': 'line reported lower than its characters', '1710': 'image size differs', '1711': 'graphic at the wrong place', '1712': 'barcode without bars',
  '1720': 'character not of the size in force when it was received', '1721': 'character not in the font in force when it was received', '1722': 'character not bold, inverted, upside down as in force when it was received', '1723': 'character not underlined as in force when it was received', '1724': 'character not of the colour in force when it was received', '1725': 'character not magnified as in force when it was received'})
PROPS['P17'] = dict(jobs=p17, covers=lambda t: [3, 4, 5, 6], asserts=[1700, 1701, 1702, 1703, 1704, 1706, 1707, 1708, 1709, 1710, 1711, 1712, 1720, 1721, 1722, 1723, 1724, 1725], stubs=[FMT],
    bounds={'quick': 'text, two items, text, line feed, text for every pair out of 28 items (settings, tabs, positions, feeds, cut, raster image, barcode, unencodable barcode, unknown command, ESC @, a command of the harness that only records its turn), every item in the middle of left, centred and right lines, and bit images within a line (ESC * in single and double density, narrower and wider than the room and than the paper) before, between and after text, settings and other such images: every character, parameter, vertical position and line spacing',
            'thorough': 'as quick on narrower paper and with all pairs of settings within a justified line'},
    outside='longer histories; a justified line is one unit only until something other than a setting comes in between')
# ---- P18: page mode
def p18(tier):
    big = tier != 'quick'
    j = []
    def add(f, *ops): j.append('p18_page %d ' % f + ' '.join(map(str, ops)))
    W, T, X, Y, P, FF, S, L, LF, CR = range(1, 11)
    for ops in [(L, W, T), (L, T, W), (L, T, W, T), (L, W, T, P, P)]: add(1, *ops)
    for ops in [(L, W, T, X), (L, W, T, Y), (L, W, T, W), (L, W, T, W, T), (L, T, W, T, W), (L, T, T, T, T), (L, W, T, W, P, FF), (L, W, T, T, FF, L, W, FF), (L, W, T, FF, L, FF), (L, T, FF, W, T, L, W), (L, W, T, S, L, T, P), (L, W, T, P, W, P), (L, W, T, L, P),
                (W, T, X, Y, P, FF, S, L), (FF, FF), (T, W, L, LF, CR, S, S), (L, W, T, LF, LF, X), (L, W, T, X, LF, Y, CR), (L, W, T, Y, X, T, X, Y), (L, W, T, X, P, FF, FF, L, W), (L, FF), (L, P, S, P)]: add(0, *ops)
    for a in range(8):
        for b in range(4): add(0, L, W, 20 + a, W, 20 + b, P, W); add(0, L, 20 + a, W, X, Y, 20 + b, W, T, FF)
    for a in range(4): add(0, L, W, 20 + a, W, 20 + (a + 1) % 4, W, T, P)
    if big:
        for a in range(4):
            for b in range(4): add(0, L, W, 20 + a, W, 20 + b, W, T, W, P); add(1, L, W, 20 + a, W, 20 + b)
        add(0, L, T, W, T, W, T, W); add(0, L, W, T, X, Y, W, T, X, Y, FF, L, W, T)
    return sorted(j, key=lambda s: -len(s))
MEANING.update({'1800': 'page mode commands reported an error', '1801': 'page not begun', '1802': 'page not printed exactly once', '1803': 'page mode not ended', '1804': 'form feed did not end and begin a print', '1805': 'reported rotation does not lead to the direction', '1806': 'page given to the output does not have the size of all its areas', '1807': 'output not told about a new page, area or direction', '1808': 'output told about something that did not change', '1809': 'page mode not on or off as commanded', '1810': 'direction differs', '1811': 'page does not have the size of all its areas',
  '1812': 'print area has another size than commanded', '1813': 'print area at another place of the page than commanded', '1814': 'print position not at the start of the area', '1815': 'absolute position outside of the area', '1816': 'absolute position not counted as the direction prescribes', '1817': 'line feed or carriage return moved elsewhere', '1818': 'paper not advanced by the height of the printed page', '1819': 'paper moved without a page being printed', '1820': 'print not ended once'})
PROPS['P18'] = dict(jobs=p18, covers=lambda t: [99] + list(range(100, 104)) + list(range(110, 114)) + [201, 202, 203, 204, 205, 208, 209, 210], asserts=[1800, 1802, 1804, 1805, 1806, 1808, 1809, 1811, 1812, 1813, 1814, 1815, 1816, 1817, 1818, 1819, 1820], stubs=[FMT],
    bounds={'quick': 'histories of up to 8 commands (ESC L, ESC W, ESC T, ESC $, GS $, ESC FF, FF, ESC S, LF, CR) with up to three areas: every area and position number, every direction byte, every paper width and paper position of 16 bits; motion units 1, and every motion unit 1..360 for up to 4 commands',
            'thorough': 'as quick with up to four areas and up to 13 commands'},
    outside='longer histories; GS \\ and GS P are in P07; what is drawn on the page is in P16 and P19')
# ---- P13, P14: .thermal source
def p13(tier):
    big = tier != 'quick'
    j = ['p13_source %d %d 0' % (k, n) for k in (0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12) for n in range(1, (7 if k < 2 else 6) if big else (6 if k < 2 else 5))]
    j += ['p13_source %d %d %d' % (k, n, c) for k in (6, 7) for n in ((0, 1, 2, 3) if big else (0, 1, 2)) for c in range(10)]
    return sorted(j, key=lambda s: -int(s.split()[2]))
MEANING.update({'1300': 'source contributes another number of bytes than written', '1301': 'source contributes other bytes than written', '1400': 'number of bytes changed on the way through .thermal source', '1401': 'bytes changed on the way through .thermal source'})
PROPS['P13'] = dict(jobs=p13, covers=lambda t: list(range(1, 8)), asserts=[1300, 1301],
    bounds={'quick': 'every UTF-8 text of up to 5 bytes, every 5 bytes within a string, every 4 bytes after ESC "@, 0x, a comment, escapes, in a line between lines, next to other tokens, and every 2 bytes before and after each of the ten constants', 'thorough': 'as quick with one more byte'},
    outside='longer texts; the value of decimals and hex numbers beyond 255, numbers with a plus sign, and lines of non ASCII white space only (not defined by the format): only that they parse')
def p14(tier):
    big = tier != 'quick'
    j = ['p14_roundtrip 0 %d 0 255' % n for n in range(4 + big)]
    for i in range(SPEC_N):
        base = FIXED.get(i, HDR.get(i))
        for n in range(0, min(base + 2, 10 if big else 9)):
            if n > 4 and i + 1 != 24 and not big: continue
            if i in (51, 52, 53) and n > 3 and not big: continue
            j.append('p14_roundtrip %d %d 0 255' % (i + 1, n))
    for i in FIXED:
        if i == 30: j += ['p14_command %d 0 0 1 1 %d %d' % (i, k * 16, k * 16 + 15) for k in range(16)]
        elif i != 23: j.append('p14_command %d 0 0 1 1' % i)
    for v in (0, 1): j.append('p14_command %d %d 0 1 1' % (CUT, v))
    for i, v, s in [(BITIMG, 0, 2), (BITIMG, 0, 40), (RASTER, 1, 2), (RASTER, 3, 12), (BARCODE, 0, 3), (BARCODE, 1, 3), (BARCODE, 1, 20), (LENH, 0, 3), (LENN, 0, 3), (GFX, 3, 20), (GFXL, 3, 20), (GFXL, 17, 60)] + ([(GFXL, 17, 600), (RASTER, 300, 3), (BITIMG, 0, 300)] if big else []): j.append('p14_command %d %d %d 0 1' % (i, v, s))
    j += ['p14_text %d %d' % (n, p) for n in range(3 + big) for p in (0, 1)]
    return sorted(j, key=lambda s: (-(s.startswith('p14_command 30 ')), -('roundtrip' in s) * int(s.split()[2])))
PROPS['P14'] = dict(jobs=p14, covers=lambda t: [1, 2, 3, 4], asserts=[1400, 1401],
    bounds={'quick': 'every byte stream of length 0..3, every opcode followed by up to 4 arbitrary bytes (ESC & its 8), every fixed size command with every parameter between two arbitrary bytes, length carrying commands with up to 60 arbitrary payload bytes, every two bytes between fixed text with quotes, escapes, comments, numbers and control codes',
            'thorough': 'as quick with one more byte, payloads to 900 bytes'}, outside='longer streams')
# ---- P19: canvases
FONT = 'fontdue (third party): the copy in /verif/stubs/fontdue reads no font file; every glyph is the same solid box (P24: spells its character and face)'
def p19(tier):
    big = tier != 'quick'
    j = []
    def add(w, h, g, *ops): j.append('p19_canvas %d %d %d %s 0' % (w, h, g, ' '.join(map(str, ops))))
    ops = range(1, 14)
    for a in ops:
        for b in ops: add(3, 2, (a + b) & 1, a, b)
        for w, h in [(0, 0), (0, 3), (1, 1), (3, 0), (1, 5), (5, 1), (4, 3)]:
            for g in (0, 1): add(w, h, g, a)
    for r in (4, 5, 6):
        for q in (4, 5, 6):
            for a in (1, 11, 7): add(2, 3, 0, r, a, q)
    opt = lambda g, bx=0, by=0, bw=0: g | bx << 1 | by << 13 | bw << 25
    for a in (1, 2, 3, 12, 7): add(260, 2, opt(0, 254), a); add(2, 260, opt(0, 0, 256), a); add(270, 3, opt(1, 3, 0, 255), a); add(3, 2, opt(1, 0, 254), a)
    for a in (4, 5, 6, 8, 9, 10, 11): add(260, 3, 0, a); add(3, 260, 1, a)
    if big:
        for a in (1, 4, 6, 7, 8, 11):
            for b in (1, 2, 5, 7, 9, 10, 12):
                for c in (1, 3, 4, 5, 6, 7): add(2, 3, (a + b) & 1, a, b, c)
    return sorted(j, key=lambda s: -len(s))
MEANING.update({'1900': 'pixels within the canvas refused', '1901': 'canvas has another size than drawn', '1902': 'canvas differs from what was drawn', '1903': 'drawing beyond the canvas accepted, or within refused', '1904': 'pixel data of the wrong size accepted', '1905': 'canvas has another size after the operation', '1906': 'pixels lost, moved or changed by the operation', '1907': 'finished image has another size', '1908': 'finished image differs from the canvas'})
PROPS['P19'] = dict(jobs=p19, covers=lambda t: list(range(1, 14)) + [20], asserts=[1900, 1901, 1902, 1903, 1905, 1906, 1907, 1908], stubs=[FONT], opts=dict(xcheck=20000),
    bounds={'quick': 'every one and two operations (put opaque, transparent and multiplied pixels, rectangles, images also upside down, rotate 90/180/270, flip, grow in width, height, at the top and as a page in each direction, data of the wrong size) and rotations before and after others, on canvases of up to 5x5 pixels with arbitrary content, at every position and size up to 5, growing and not growing; every operation on canvases of up to 270x3 and 3x260 (concrete content, positions around 254..258)',
            'thorough': 'as quick with three operations'},
    outside='longer histories; blending of half transparent pixels; flipping beyond the canvas')
# ---- P15: pictures
def p15(tier):
    big = tier != 'quick'
    j = []
    def add(w, m, *ops): j.append('p15_image %d %d %s 0' % (w, m, ' '.join(map(str, ops))))
    std = [1, 2, 3, 5, 6, 7, 8, 14, 15, 16, 17, 18, 19, 21]
    for a in std:
        for b in std:
            if not (a in (1,) and b in (7, 18) or a == 7 and b in (7, 1)): add(24, (a + b) % 6, a, b, 3, 4)
    for w in (1, 7, 8, 12):
        for a in (1, 2, 3, 14): add(w, w % 4, a); add(w, 3, 15, a, 4)
    for d in (1, 2, 3, 14): add(24, 2, 9, 10, d, 12); add(24, 0, 9, 20, 11, d, 12); add(24, 1, 9, 20, d, 11, 12, 3); add(13, 2, 9, 20, 11, d, 8, 1); add(24, 0, 9, 20, 11, 15, d, 12)
    for ops in [(9, 20, 11, 3, 11, 12), (9, 20, 2, 11, 11, 12), (9, 10, 2, 10, 12), (9, 10, 11, 2, 12), (9, 11, 10, 2, 12), (9, 20, 7, 2, 12), (9, 20, 22, 2, 12), (9, 20, 11, 7, 2, 12), (9, 20, 11, 22, 2, 12), (9, 20, 2, 12, 12), (9, 20, 2, 8, 9, 20, 3, 8), (9, 20, 2, 13, 3), (9, 12), (9, 8), (9, 20, 11, 3, 4, 3, 12), (9, 20, 11, 18, 3, 12), (3, 4, 9, 20, 2, 11, 12, 13, 3), (9, 20, 11, 17, 3, 12), (9, 20, 11, 19, 3, 12),
      (9, 20, 11, 1, 12, 12), (9, 20, 11, 3, 12, 12), (9, 20, 11, 14, 12, 3, 12), (9, 20, 11, 12, 1, 12), (9, 25, 27, 13, 9, 1, 11, 1, 12, 13), (9, 27, 1, 12, 13, 9, 11, 1, 12, 13), (9, 20, 13, 9, 27, 11, 3, 12), (9, 20, 27, 1, 12, 13, 9, 1, 11, 14, 12), (9, 25, 27, 13, 9, 3, 11, 14, 12, 3)]: add(24, 2, *ops)
    wide = [3, 5, 6, 8, 14, 16, 17, 18, 19, 21, 23, 24, 26]
    for a in wide:
        for b in wide: add(568, 40 + (a + b) % 3, a, 3, 4, b, 3, 4)
    for d in (3, 14, 23, 24): add(568, 40, 9, 25, d, 11, d, 12)
    for o in [(300, 7, 23, 3, 4, 23), (300, 8, 24, 3, 4, 24, 3), (24, 8, 24, 3, 4, 24, 3), (300, 0, 9, 20, 11, 3, 12), (20, 0, 9, 24, 11, 3, 12), (12, 1, 28, 3, 4), (12, 0, 3, 28), (12, 2, 2, 28, 1), (12, 0, 28, 9, 20, 3, 12)]: add(*o)
    if big:
        for a in std:
            for b in std:
                for c in (2, 3, 14): add(17, (a + b) % 6, 3, a, 3, b, c)
    for i in range(SPEC_N):
        base = FIXED.get(i, HDR.get(i))
        for n in range(0, min(base, 3 if i in (BITIMG, RASTER) else 4) + 1): j.append('p15_total %d %d %d 3' % (i + 1, n, (i + n) & 1))
        if base < 8 and i != 40: j.append('p15_total %d %d %d 6' % (i + 1, min(base, 3 if i in (BITIMG, RASTER) else 5), i & 1))
    j += ['p15_total 0 %d 0 3' % n for n in (0, 1)]
    return sorted(j, key=lambda s: -len(s) - (50 if ' 11 ' in s or ' 10 ' in s else 0))
MEANING.update({'1500': 'not exactly one picture per print', '1501': 'picture does not have the width of the paper', '1502': 'picture does not have three bytes for each dot', '1503': 'image given to the output has another size or colours', '1504': 'picture has another height than what was printed', '1505': 'dot differs from what was printed there', '1506': 'character left no ink in its cell', '1507': 'rendering again gives another picture'})
PROPS['P15'] = dict(jobs=p15, covers=lambda t: [1, 2, 20, 21, 22, 23, 30, 31, 32, 33], asserts=[1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507], stubs=[FMT, FONT], opts=dict(xcheck=20000),
    bounds={'quick': 'image output: every two of 14 items (raster image, bit image, text, feed, cut, position, form feed, barcode, upside down, justification, inverse, size, underline, font) before text, and page mode histories of up to 8 commands with two areas and two directions, on paper of up to 24 dots with margins, with an arbitrary byte of image data, several positions, feeds, sizes, areas and every direction; paper of 568 dots with images to 320 dots wide or 300 high with one arbitrary bit and a page of 300x272, every two of 13 items among text; every opcode followed by up to 5 arbitrary bytes between text, and on a page, with and without debug marks',
            'thorough': 'as quick with any two items between texts before images, text and barcodes'},
    outside='larger images and longer histories; the shape of the glyphs; image dots under an upside down area; 2D symbols; the HTML output is in P20')

# ---- P20, P22: the HTML output
PNG = 'png (third party): the copy in /verif/stubs/png leaves the image data uncompressed and unfiltered, without checksum'
def p20(tier):
    big = tier != 'quick'
    j = ['p20_html %d %s 0' % (n + 16, ' '.join(map(str, o))) for n, o in [(2, (3, 4)), (3, (3, 4)), (1, (3, 4)), (1, (3,)), (1, (23, 3)), (1, (3, 23, 4)), (1, (20, 3, 4)), (1, (17, 3, 4)), (1, (16, 3, 4)), (1, (18, 3, 4)), (1, (21, 19, 3)), (1, (3, 1, 3)), (1, (14, 3, 4)), (1, (3, 8, 3)), (1, (15, 24, 3, 3))] if big or n < 3]
    if big: j += ['p20_html 17 %d %d 3 4 0' % (a, b) for a in (15, 16, 17, 18, 19, 21, 24) for b in (15, 16, 17, 18, 19, 21, 23)]
    return j
MEANING.update({'2000': 'row of the page is not made of the expected elements', '2001': 'row holds other spans than were printed', '2002': 'text changed its length on the page', '2003': 'text reads differently on the page', '2004': 'not exactly one document per print', '2005': 'page has another number of rows than were printed', '2006': 'rows missing from the document', '2007': 'document differs from its rows',
  '2200': 'row without place', '2201': 'row at another height than printed', '2202': 'blank start of the paper differs', '2203': 'row has another height than what it holds', '2204': 'text or image at another column or width', '2205': 'text not within its row', '2206': 'style differs', '2207': 'magnification differs', '2208': 'image not embedded', '2209': 'embedded image has another size', '2210': 'embedded image has another dot', '2211': 'barcode drawing does not hold its bars', '2212': 'barcode has another number of bars', '2213': 'bar at another place or of another size', '2214': 'page does not end where the paper ends', '2215': 'what is printed on does not lie between the margins of the page', '2216': 'colour differs'})
PROPS['P20'] = dict(jobs=p20, covers=lambda t: [1, 2, 21], asserts=[2000, 2001, 2002, 2003, 2004, 2005, 2007], stubs=[FMT + ' while streams are parsed and laid out; not in the HTML output', FONT, PNG], opts=dict(xcheck=20000),
    bounds={'quick': 'every byte above 31 (code page 437) as text, also followed by each of & < \' " l ; and next to text that looks like markup or the template, plain and in every print mode (ESC !), inverted, justified, magnified, in fonts, next to images and barcodes', 'thorough': 'as quick with three characters and any two settings'},
    outside='longer texts (characters are replaced one by one); other code pages')
def p22(tier):
    big = tier != 'quick'
    j = []
    def add(*ops): j.append('p20_html 0 %s 0' % ' '.join(map(str, ops)))
    std = [1, 2, 3, 5, 6, 7, 8, 14, 15, 16, 17, 18, 19, 21, 22, 24]
    for a in std:
        for b in std if big else [1, 2, 3, 5, 14, 18, 22]: add(3, a, 3, 4, b, 3, 4)
    for o in [(20, 3, 4), (9, 10, 11, 2, 12), (9, 10, 11, 3, 12, 3), (9, 10, 1, 11, 12, 12), (9, 10, 14, 8, 3), (9, 10, 2, 13, 3), (9, 12), (9, 8), (), (8, 8), (4, 4, 4), (1,), (14,), (3, 4, 22, 22, 1, 3, 4, 5, 3), (3, 25, 3, 4), (26, 3, 4, 25), (9, 27, 11, 25, 12, 3), (9, 27, 26, 12, 12), (16, 25, 26), (15, 25, 3), (3, 28, 3, 14, 4), (30, 3, 4), (17, 28, 3, 4), (29, 3, 4), (29, 29, 3, 4), (31, 19, 3, 4), (15, 30, 3, 4), (17, 29, 3, 4, 14, 31, 19, 3), (30, 3, 4), (17, 14, 3), (9, 10, 11, 2, 12, 12), (9, 10, 11, 14, 12, 13, 9, 10, 3, 12), (32, 3), (3, 32), (3, 32, 3, 4), (1, 32, 14, 32), (32, 9, 10, 3, 12)]: add(*o)
    return j
PROPS['P22'] = dict(jobs=p22, covers=lambda t: [1, 2, 20, 21, 22, 34, 41, 42], asserts=[2000, 2001, 2002, 2003, 2004, 2005, 2007, 2200, 2201, 2202, 2203, 2204, 2205, 2206, 2207, 2209, 2210, 2211, 2212, 2213, 2214, 2215, 2216], stubs=[FMT + ' while streams are parsed and laid out; not in the HTML output', FONT, PNG], opts=dict(xcheck=20000),
    bounds={'quick': 'every two of 16 items (raster image, bit image, text, feeds, cut, position, form feed, barcode, upside down, justification, inverse, magnification, underline, font, italic) among text, every magnification up to 8x8 also upside down, colours (ESC r, GS ( N) also inverted, strike through, page mode in every direction, images to 320 dots wide or 300 high, with an arbitrary byte of image data or print mode and several feeds, positions, magnifications', 'thorough': 'as quick with any two items'},
    outside='longer histories; layout rules of the style sheet other than weight, slant, lines, size, colours, transformations of spans; glyphs; 2D symbols')

# ---- P21: QR codes
QR = 'qr_code (third party): the copy in /verif/stubs/qr_code draws a grid that spells the version, error correction level and data it was given; its capacity check (byte mode) is the real one'
def p21(tier):
    big = tier != 'quick'
    j = []
    def add(*ops): j.append('p21_qr %s 0' % ' '.join(map(str, ops)))
    for m in (30, 31, 32):
        for e in range(20, 24):
            for n in (1, 4, 9) if not big else (1, 2, 3, 4, 5, 6, 9, 13, 15): add(m, e, 41 + (m + e + n) % 5, 100 + n, 1)
    fit = [(17, 14, 11, 7), (32, 26, 20, 14), (53, 42, 32, 24), (78, 62, 46, 34), (106, 84, 60, 44), (134, 106, 74, 58), (271, 213, 151, 119), (458, 362, 258, 194), (2953, 2331, 1663, 1273)]
    for e in range(4):
        for k, f in enumerate(fit):
            for n in (f[e], f[e] + 1):
                if k < 8 or n == f[e] or big: add(31, 20 + e, 41, 10000 + n, 1)
                if k < 8: add(30, 20 + e, 42, 10000 + n, 1)
    add(31, 20, 41, 12953, 1, 12954, 1)
    for e, n in ((0, 15), (1, 13), (2, 9), (3, 1)):
        for d in (0, 1): add(32, 20 + e, 43, 10000 + n + d, 1)
    for o in [(31, 42, 103, 1, 1), (31, 42, 104, 102, 1), (31, 41, 103, 1, 12954, 1), (31, 41, 12954, 1, 103, 1), (32, 41, 103, 1, 10016, 1), (30, 41, 103, 10459, 1), (31, 43, 103, 5, 1), (31, 43, 103, 5, 6), (5, 6), (6,), (1,), (31, 41, 103, 9, 1), (31, 42, 8, 102, 1), (31, 42, 103, 7, 1, 7, 1), (31, 42, 8, 7, 103, 7, 1, 1), (31, 44, 5, 103, 1), (2, 20, 42, 102, 1), (31, 3, 42, 102, 1), (31, 20, 4, 102, 1), (31, 48, 110, 1)]: add(*o)
    return sorted(j, key=lambda s: -(sum(300 for x in s.split()[1:] if x in ('2', '3', '4', '8')) + len(s)))
MEANING.update({'2100': 'more than one drawing for one command', '2101': 'drawing without a print command', '2102': 'symbol printed though none could be stored', '2103': 'stored symbol not printed', '2104': 'paper not advanced below the symbol', '2105': 'symbol printed by another symbology though nothing was stored', '2106': 'wrong number of reported errors', '2107': 'symbol without dark modules', '2108': 'module of another size than commanded', '2109': 'another error correction level than commanded', '2110': 'symbol holds another amount of data than stored', '2111': 'symbol holds other data than stored', '2112': 'symbol has modules that do not belong to it', '2113': 'module at the wrong place', '2114': 'symbol of another model or at the wrong place'})
PROPS['P21'] = dict(jobs=p21, covers=lambda t: [1, 2], asserts=[2100, 2101, 2102, 2104, 2106, 2108, 2109, 2110, 2111, 2112, 2113, 2114], stubs=[FMT, QR],
    bounds={'quick': 'QR codes of every model and error correction level, 1..8 dots per module, data of 1..9 bytes with an arbitrary byte at the start, middle and end, and fixed data of the greatest length and one more of versions 1..6, 10, 14, 40 and micro; repeated prints and stores, stores that fail, stores and prints of the six other symbologies, ESC @, justification, text before and after',
            'thorough': 'as quick with more lengths'},
    outside='how the data are encoded (third party); settings changed between store and print; symbols wider than the paper; empty data; the other symbologies are not implemented by the project')
# ---- P23: problems are reported once
def p23(tier):
    big = tier != 'quick'
    j = []
    def add(*ops):
        for o in (0, 1): j.append('p23_problems %d %s 0' % (o, ' '.join(map(str, ops))))
    std = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]
    for a in std:
        for b in std: add(a, b, 1)
        add(a, 11)
    for o in [(6, 7, 6, 7, 1), (6, 6, 7, 4, 7), (2, 2, 2), (4, 9, 4, 3, 4), (5, 5, 5), (7, 6, 7, 7, 1), (2, 7, 2, 7, 11), (10, 6, 10, 7, 10), (1, 4, 1, 9, 4)]: add(*o)
    if big:
        for a in std:
            for b in std:
                for c in (2, 4, 6, 7): add(a, c, b, 7, 1)
    return j
MEANING.update({'2300': 'another number of problems reported than there are', '2301': 'problem reported where there is none', '2302': 'another number of prints', '2303': 'problem of another kind or out of order', '2304': 'unknown command reported without its bytes', '2305': 'a problem changed the rest of the output'})
PROPS['P23'] = dict(jobs=p23, covers=lambda t: [1, 2, 3, 4, 5], asserts=[2300, 2301, 2302, 2303, 2304, 2305], stubs=[FMT + '; not when unknown commands are printed', FONT, PNG, QR], opts=dict(xcheck=20000),
    bounds={'quick': 'picture and HTML output of every two out of 11 items and some histories of up to 5: text, every unknown command of two bytes, an EAN-8 barcode with an arbitrary last digit, QR codes printed with and without a stored one, graphics of 0..3 data bytes where 2 are needed, a raster image cut off at the end, an image below its page, pages, form feeds, images, justification',
            'thorough': 'as quick with histories of five commands'},
    outside='which barcode data and image sizes fail (P09, P11, P12, P21); longer unknown commands (P02); characters and barcodes outside of the page; the wording')
# ---- P24: text in the picture
def p24(tier):
    big = tier != 'quick'
    j = []
    def add(w, *ops): j.append('p24_text %d %s 0' % (w, ' '.join(map(str, ops))))
    for o in [(1,), (13, 1), (18, 2), (12, 1)] if big else [(1,), (13, 1), (18, 2)]: add(130, *o)
    for o in [(11, 2), (13, 11, 2), (12, 7, 2, 12, 7, 2, 4, 2), (12, 2, 12, 2, 4, 2), (12, 8, 2, 10), (13, 12, 2), (12, 9, 7, 2), (20, 9, 7, 8, 2), (13, 12, 10, 2), (11, 10, 2), (14, 12, 2)]: add(330, *o)
    for o in [(2, 3, 4, 2), (5, 2, 6, 3, 4), (5, 6, 2), (7, 2), (8, 2), (7, 8, 2), (10, 2, 4), (9, 2), (14, 2), (13, 2), (13, 7, 2), (13, 8, 7, 2), (13, 9, 2), (13, 9, 7, 8, 2), (13, 10, 2), (13, 10, 7, 8, 2), (13, 5, 6, 2), (15, 2), (15, 9, 2), (15, 12, 2), (16, 17, 2), (16, 17, 9, 7, 2), (16, 17, 9, 8, 2), (16, 9, 10, 2), (19, 2), (2, 26, 2), (2, 26, 12, 2), (2, 4, 10, 2, 4), (25, 2, 9, 2, 4, 2), (2, 3, 2, 3, 2), (23, 20, 2, 21, 2), (13, 2, 13, 2), (20, 2, 13, 2), (21, 7, 2, 20, 7, 2), (15, 13, 10, 2), (9, 7, 2, 9, 8, 2, 4, 2), (14, 9, 2, 14, 2), (22, 13, 24, 2, 6, 3, 4, 2)]: add(100, *o)
    if big:
        std = [5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18]
        for a in std:
            for b in std:
                if a != b: add(200, a, b, 2)
        for a in (12, 13):
            for b in std: add(330, a, b, 2, *((4,) if b == 15 else ()), b, a, 2, 4, 2) # justification is set where lines start
    one = [(2,), (2, 3, 4, 2), (5, 2), (6, 2), (7, 2), (8, 2), (9, 2), (10, 2), (14, 2), (15, 2), (13, 2), (12, 2), (9, 7, 2), (20, 2, 4, 3), (10, 2, 4, 9, 3)]
    for o in one + ([(a, b, 2, 4, 2) for a in std for b in std if a < b and 18 not in (a, b)] if big else []):
        ops = ' '.join(map(str, o))
        for d in (1, 2, 3):
            for r in ('0 0 100 72', '5 3 72 100') if big or len(o) > 2 else ('5 3 90 72',): j.append('p24_page %d %s %s 0' % (d, r, ops))
        for d in range(4):
            for e in range(4):
                if d != e and (big or (d + e) % 4 != 2 or len(o) == 2): j.append('p24_turn %d %d 5 3 90 72 %s 0' % (d, e, ops))
    return sorted(j, key=lambda s: -sum({'11': 200, '12': 20, '18': 250, '1': 40, '13': 4, '16': 3, '17': 3}.get(x, 1) for x in s.split()[2:]))
MEANING.update({'2400': 'inverse or coloured ground not of the height of the character', '2401': 'ground reaches out of its characters', '2402': 'wrong number of lines at the text', '2403': 'line with gaps or of another colour', '2404': 'line of another thickness', '2405': 'dots beside the character', '2406': 'character missing', '2407': 'character of another size', '2408': 'line at the wrong height', '2409': 'character of another colour', '2410': 'another character', '2411': 'another face (bold, italic)', '2412': 'wrong number of pictures', '2413': 'characters of a line do not stand on one line', '2414': 'page at another place or without the whole of its area', '2415': 'area does not show the text turned as the direction asks', '2416': 'text on the page changed when more was printed in another direction'})
PROPS['P24'] = dict(jobs=p24, covers=lambda t: [1, 2, 3, 4, 5, 6, 7, 8, 9, 21], asserts=[2400, 2401, 2402, 2403, 2404, 2405, 2407, 2408, 2409, 2410, 2411, 2413, 2414, 2415, 2416], stubs=[FMT, FONT], opts=dict(xcheck=20000),
    bounds={'quick': 'every character 32..126 in each font; text of two to six characters in every combination of print modes (ESC !), every magnification to 8x8 in each font, and combinations of up to five of bold, italic, underline, strike-through, inverse, upside down, colours of text and ground, justification, position and font, also differing within a line and from line to line; the same in page mode in each direction against the page printed from left to right, and after text in another direction',
            'thorough': 'as quick with every two settings, before and within a line (justification at its start)'},
    outside='the shape of the glyphs (third party font); characters clipped by the edge of the paper; absolute positions in page mode (P18); other code pages (P06)')


NOT_APPLICABLE = {}

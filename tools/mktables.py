#!/usr/bin/env python3
"""Writes harness/src/tables.rs: the oracle of P05. Run once; committed. Code pages 437, 850, 857, 860, 863, 865 and the half width
katakana come from Python's codecs; 851, 853 and the rest of the katakana page are transcribed from the published tables; 65535 = no character."""
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NONE = 65535
def codec(c, over={}):
    r = []
    for i in range(128, 256):
        if i in over: r.append(over[i]); continue
        try: r.append(ord(bytes([i]).decode(c)))
        except UnicodeDecodeError: r.append(NONE)
    return r
def text(s, n=128):
    v = [NONE if c == '_' else ord(c) for c in s]
    assert len(v) == n, len(v)
    return v
P851 = ('ÇüéâäàΆçêëèïîΈÄΉ' 'Ί_ΌôöΎûùΏÖÜά£έήί' 'ϊΐόύΑΒΓΔΕΖΗ½ΘΙ«»' '░▒▓│┤ΚΛΜΝ╣║╗╝ΞΟ┐' '└┴┬├─┼ΠΡ╚╔╩╦╠═╬Σ' 'ΤΥΦΧΨΩαβγ┘┌█▄δε▀' 'ζηθικλμνξοπρσςτ´' '\xad±υφχ§ψ¸°¨ωϋΰώ■\xa0')
P853 = ('ÇüéâäàĉçêëèïîìÄĈ' 'ÉċĊôöòûùİÖÜĝ£Ĝ×ĵ' 'áíóúñÑĞğĤĥ_½Ĵş«»' '░▒▓│┤ÁÂÀŞ╣║╗╝Żż┐' '└┴┬├─┼Ŝŝ╚╔╩╦╠═╬¤' '__ÊËÈıÍÎÏ┘┌█▄_Ì▀' 'ÓßÔÒĠġµĦħÚÛÙŬŭ·´' '\xad_ℓŉ˘§÷¸°¨˙_³²■\xa0')
KATA = ('▁▂▃▄▅▆▇█▏▎▍▌▋▊▉┼' '┴┬┤├¯─│▕┌┐└┘╭╮╰╯') 
KATE = ('═╞╪╡◢◣◥◤♠♥♦♣●○╱╲' '╳円年月日時分秒〒市区町村人▓\xa0')
kana = [ord(' ')] + [ord(bytes([i]).decode('shift_jis')) for i in range(0xA1, 0xE0)]
PAGES = {0: codec('cp437'), 1: text(KATA, 32) + kana + text(KATE, 32), 2: codec('cp850', {0xF0: ord('-')}), 3: codec('cp860'), 4: codec('cp863'), 5: codec('cp865'), 11: text(P851), 12: text(P853), 13: codec('cp857', {0xD5: 0x20AC})}
COLS = [0x23, 0x24, 0x40, 0x5B, 0x5C, 0x5D, 0x5E, 0x60, 0x7B, 0x7C, 0x7D, 0x7E]
USA = '# $ @ [ \\ ] ^ ` { | } ~'.split()
NAT = {1: '# $ à ° ç § ^ ` é ù è ¨', 2: '# $ § Ä Ö Ü ^ ` ä ö ü ß', 3: '£ $ @ [ \\ ] ^ ` { | } ~', 4: '# $ @ Æ Ø Å ^ ` æ ø å ~', 5: '# ¤ É Ä Ö Å Ü é ä ö å ü', 6: '# $ @ ° \\ é ^ ù à ò è ì', 7: '₧ $ @ ¡ Ñ ¿ ^ ` ¨ ñ } ~',
  8: '# $ @ [ ¥ ] ^ ` { | } ~', 9: '# ¤ É Æ Ø Å Ü é æ ø å ü', 10: '# $ É Æ Ø Å Ü é æ ø å ü', 11: '# $ á ¡ Ñ ¿ é ` í ñ ó ú', 12: '# $ á ¡ Ñ ¿ é ü í ñ ó ú', 13: '# $ @ [ ₩ ] ^ ` { | } ~', 14: '# $ Ž Š Đ Č Ć ž š đ č ć', 15: '# ¥ @ [ \\ ] ^ ` { | } ~', 16: 'đ $ @ [ \\ ] ^ ` { | } ~'}
nat = {k: [(c, ord(x)) for c, x, u in zip(COLS, v.split(), USA) if x != u] for k, v in NAT.items()}
nat[17] = [(0x2A, 0x66D)]
for k, zero in {66: 0x966, 67: 0x9E6, 68: 0xBE6, 69: 0xC66, 70: 0x9E6, 71: 0xB66, 72: 0xCE6, 73: 0xD66, 74: 0xAE6, 75: 0xA66, 82: 0x966}.items(): nat[k] = [(0x30 + i, zero + i) for i in range(10)]
with open(R + '/harness/src/tables.rs', 'w') as f:
    f.write('// written by tools/mktables.py\npub const NONE: u16 = 65535;\npub const PAGES: &[(u8, [u16; 128])] = &[\n')
    for k, v in PAGES.items(): f.write('    (%d, %s),\n' % (k, v))
    f.write('];\npub const NATIONAL: &[(u8, &[(u8, u16)])] = &[\n')
    for k, v in nat.items(): f.write('    (%d, &%s),\n' % (k, v))
    f.write('];\n')

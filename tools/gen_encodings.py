#!/usr/bin/env python3
"""Write spec/Encodings.tla: what bytes denote in each encoding helium
supports, as Python's codecs define them. Bytes on which the definitions of
an encoding differ are left out (nothing is promised about them)."""
import sys
SINGLE = {
    'cp437': 'cp437', 'cp866': 'cp866', 'koi8r': 'koi8_r', 'koir8u': 'koi8_u',
    'macintosh': 'mac_roman', 'macintoshcyrillic': 'mac_cyrillic', 'windows874': 'cp874',
    'iso-8859-1': 'cp1252',
}
for n in (2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 16):
    SINGLE['iso-8859-%d' % n] = 'iso8859_%d' % n
for n in range(1250, 1259):
    SINGLE['windows%d' % n] = 'cp%d' % n
CHARS = ('あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをん'
         'アイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワヲン'
         '亜哀愛悪圧安以位依偉一二三四五六七八九十日月火水木金土人口山川田中大小上下左右前後東西南北'
         '語文字表示能力構造処理申貼暴予十欺')
KOREAN = '가각간갈감강개객거건검게격견결경계고곡골공과관광괴교구국군굴궁권귀규극근글금급기나다라마바사아자차카타파하'
CHINESE = '中国人民大小上下左右前後一二三四五六七八九十日月水火木金土'
TRAD = '中國人民大小上下左右前後一二三四五六七八九十日月水火木金土功許蓋餐育'
def pairs(codec, chars, strip=0):
    out = {}
    for c in dict.fromkeys(chars):
        try:
            b = c.encode(codec)
        except UnicodeEncodeError:
            continue
        if strip:
            b = b[strip[0]:len(b) - strip[1]]
        if len(b) == 2:
            out[(b[0], b[1])] = ord(c)
    return out
PAIRS = {'euc-jp': pairs('euc_jp', CHARS), 'big5': pairs('big5', TRAD), 'euc-kr': pairs('euc_kr', KOREAN)}
for n in ('shift_jis', 'shift-jis', 'shiftjis', 'cp932'):
    PAIRS[n] = pairs('cp932', CHARS)
SHIFT = {}
for n in ('jis', 'iso-2022-jp'):
    SHIFT[n] = (pairs('iso2022_jp', CHARS, (3, 3)), [27, 36, 66], [27, 40, 66])
SHIFT['hz-gb2312'] = (pairs('hz', CHINESE, (2, 2)), [126, 123], [126, 125])

def table():
    """the tables, for the generators: name -> kind, data"""
    t = {}
    for n, c in SINGLE.items():
        up = []
        for b in range(128, 256):
            try:
                u = ord(bytes([b]).decode(c))
            except UnicodeDecodeError:
                u = 0
            # C1 controls stand for "not assigned" in several of these
            if 0x80 <= u < 0xA0:
                u = 0
            if b < 0xA0 and n == 'iso-8859-1':
                u = 0
            if 0xE000 <= u < 0xF900:
                u = 0
            # KOI8-U with and without a Belarusian letter
            if n == 'koir8u' and b in (0xAE, 0xBE):
                u = 0
            up.append(u)
        t[n] = up
    t['windows1252'] = t['windows1252']
    return t

def S(n):
    return 'S("%s")' % n
def main():
    o = []
    o.append('------------------------------ MODULE Encodings ------------------------------')
    o.append('(* Generated by tools/gen_encodings.py. What bytes denote in each encoding.   *)')
    o.append('(* ByteTab: the characters of the bytes 128..255, 0 where nothing is promised. *)')
    o.append('EXTENDS Chars')
    o.append('')
    o.append('Utf8Names == {S("utf8"), S("utf-8")}')
    o.append('')
    ts = table()
    o.append('ByteTab ==')
    for i, (n, up) in enumerate(sorted(ts.items())):
        o.append('  %s(%s :> <<%s>>)' % ('@@ ' if i else '   ', S(n), ', '.join(map(str, up))))
    o.append('')
    def tab(p):
        return ' @@ '.join('(<<%d, %d>> :> %d)' % (a, b, c) for (a, b), c in sorted(p.items()))
    o.append('EucJp == ' + tab(PAIRS['euc-jp']))
    o.append('ShiftJis == ' + tab(PAIRS['shift_jis']))
    o.append('Big5 == ' + tab(PAIRS['big5']))
    o.append('EucKr == ' + tab(PAIRS['euc-kr']))
    o.append('Jis == ' + tab(SHIFT['jis'][0]))
    o.append('Hz == ' + tab(SHIFT['hz-gb2312'][0]))
    o.append('')
    o.append('PairTab == (S("euc-jp") :> EucJp) @@ (S("big5") :> Big5) @@ (S("euc-kr") :> EucKr) @@')
    o.append('  ' + ' @@ '.join('(%s :> ShiftJis)' % S(n) for n in ('shift_jis', 'shift-jis', 'shiftjis', 'cp932')))
    o.append('')
    o.append('ShiftTab ==')
    o.append('  LET jis == [tab |-> Jis, on |-> <<27, 36, 66>>, off |-> <<27, 40, 66>>] IN')
    o.append('  (S("jis") :> jis) @@ (S("iso-2022-jp") :> jis) @@')
    o.append('  (S("hz-gb2312") :> [tab |-> Hz, on |-> <<126, 123>>, off |-> <<126, 125>>])')
    o.append('=============================================================================')
    open(sys.argv[1], 'w').write('\n'.join(o) + '\n')
if __name__ == '__main__':
    main()

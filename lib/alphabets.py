"""The alphabets of XmlGen.tla: for each part of the language, fragments that
are put together in every order. FIRST, for walks, are the fragments that
usually leave the document well-formed; ODD the others."""

DT = '<!DOCTYPE r ['

ALPHABETS = {
    # markup in element content
    'content': dict(
        pre='<r>',
        first=['<a>', '</a>', '</r>', '<b x="1">', '</b>', '<c/>', 't', ' ', '\n', '\r\n', '/>', '>', ']]', '-', '?>', '-->', '&lt;', '&#38;',
               '&#x10FFFF;', '<!--c-->', '<!---->', '<!-- - -->', '<?p d?>', '<?p?>', '<?p  a ? > ?>', '<![CDATA[x]]>', '<![CDATA[]]>',
               '<![CDATA[]]]]>', '<![CDATA[<a>&amp;]]>', '\u00e9', '\U00010000', '"', '=', '/', '!', '[', ']', ';', '#'],
        odd=['</r', ']]>', '<', '&', '&amp', '<!-- -- -->', '<!--->', '<!-- --->', '<!--', '<?', '<?xml?>', '<?XML x?>', '<?p', '<??>', '<![CDATA[',
             '<![cdata[x]]>', '<!a>', '<!>', '</>', '< a>', '</ a>', '<a', '\x01', '\ufffe', '&#0;', '&#xD800;', '&x;', '<!DOCTYPE r>', '<1/>', '</r x>',
             '<a></b>', '<a/ >', '&#x;', '&;', '<?p:q?>', '\x7f']),
    # what surrounds the root element
    'misc': dict(
        pre='',
        first=['<?xml version="1.0"?>', '<r/>', '<r>', '</r>', '<!--c-->', '<?p d?>', ' ', '\n', '\r', '<!DOCTYPE r>', '<!DOCTYPE r []>',
               '<!DOCTYPE r [<!--d--><?q?>]>', '<!DOCTYPE r [ ]  >', '<!DOCTYPE  r  >'],
        odd=['t', '&amp;', '<![CDATA[x]]>', '<!DOCTYPE>', '<!DOCTYPEr>', '<!DOCTYPE r', '[', ']>', '<!ENTITY e "v">', '</a>', '<!DOCTYPE r ]>', '\x00',
             '\ufeff', '-', '<?xml version="1.0"?>', '<?xml?>', '>', '<!DOCTYPE r [ ] x>', '<!doctype r>']),
    # namespaces: elements and their declarations
    'ns': dict(
        pre='<r xmlns:p="u">',
        first=['<a>', '<p:a>', '</a>', '</p:a>', '<a xmlns="d">', '<a xmlns="">', '<a xmlns:p="v">', '<p:a xmlns:p="v">', '<q:a xmlns:q="u">', '</q:a>',
               '<a xmlns:q="v" xmlns="e">', '<a p:x="1" x="2"/>', '<p:b/>', '<b xmlns="d" x="1"/>', '<b xmlns:q="w" q:x="1" p:x="1"/>', '<b/>', 't',
               '<b xml:lang="e"/>', '<p:b p:p="1" xmlns="f"/>', '<b xmlns="u" p:x="1" x="1"/>', '<a xmlns:p="v" xmlns:q="u" p:x="1" q:x="1">',
               '<p:b xmlns:p="http://www.w3.org/2000/xmlns" p:x="1"/>', '<b xmlns="http://www.w3.org/xml/1998/namespace" xml:x="1"/>'],
        odd=['<q:b/>', '<b q:x="1"/>', '<b xmlns:q="u" q:x="1" p:x="1"/>', '<b p:x="1" p:x="2"/>', '<b xmlns:p=""/>', '<b xmlns:xml="u"/>',
             '<b xmlns:xmlns="u"/>', '<b xmlns="d" xmlns="e"/>', '<b xmlns:q="v" xmlns:q="v"/>', '<xmlns:b/>', '<p:/>', '<:b/>', '<p:b:c/>', '<b :x="1"/>',
             '<b p:="1"/>', '<xml:b/>', '<b xmlns:p="http://www.w3.org/XML/1998/namespace"/>', '<b xmlns:xml="http://www.w3.org/XML/1998/namespace" xml:x=""/>',
             '<b xmlns="http://www.w3.org/2000/xmlns/"/>', '<b xmlns:="u"/>', '<p:a xmlns="u"></a>', '<a xmlns="u"></p:a>', '<q:a xmlns:q="u"></p:a>', '<p:a xmlns:q="u"></q:a>', '<p:a></p:b>', '<p:a></a>', '<a></p:a>', '<p:a></p>', '<p:a></p:>', '<p:a></p:ab>',
             '<p:a></ p:a>', '<p:a></p :a>', '<b xmlns:xml="http://www.w3.org/xml/1998/namespace"/>', '<b xmlns:xml="http://www.w3.org/XML/1998/namespace/"/>', '<b xmlns:xml=" http://www.w3.org/XML/1998/namespace"/>',
             '<b xmlns:xml=""/>', '<b xmlns:p="http://www.w3.org/2000/xmlns/"/>', '<b xmlns="http://www.w3.org/XML/1998/namespace"/>', '<b xmlns:xml="http://www.w3.org/XML/1998/namespace" xmlns:xml="u"/>', '<b xmlns:xmlns="http://www.w3.org/2000/xmlns/"/>']),
    # white space in elements of all kinds of content
    'blank': dict(
        pre=DT + '<!ELEMENT r (#PCDATA|a)*><!ELEMENT p:a ANY><!ELEMENT a (b|p:a)*><!ELEMENT b EMPTY><!ELEMENT c (#PCDATA)><!ENTITY e " "><!ENTITY f "&e;<c> </c>&e;"><!ENTITY g "<p:a> </p:a> <a> <c/>&e;</a>">]><r xmlns:p="u">',
        first=[' ', '\n', '<a>', '</a>', '<p:a>', '</p:a>', '<c>', '</c>', '<d>', '</d>', '&e;', '&f;', '&g;', 't', '&#32;', '<![CDATA[ ]]>', '<!--c-->', '<p:c>', '</p:c>', '<b/>'],
        odd=[]),
    # start tags character by character
    'tag': dict(
        pre='<r ', probes=['>', '"/>', "'/>", 'a>', '="1">', 'a="1"/>', ';"/>', "x;'/>"],
        first=['a', 'b', ' ', '=', '="1"', "='2'", '="', '"', "'", '>', '/>', '/', '\n', ':', 'x', '&lt;', '&#9;', '<', '1', 'xmlns', '&', ';', '.', '-', '\u00e9', '\t'],
        odd=[]),
    # general entities
    'ent': dict(
        pre=DT + '<!ENTITY e "x"><!ENTITY f "<a>&e;</a>"><!ENTITY g "&f;&f;"><!ENTITY l "&l;"><!ENTITY m "&n;"><!ENTITY n "&m;"><!ENTITY o "<a>">'
            '<!ENTITY c "</a>"><!ENTITY lt2 "&#38;#60;"><!ENTITY k "&#60;b/>"><!ENTITY e "second"><!ENTITY z ""><!ENTITY u "&undef;"><!ENTITY s " "><!ENTITY w "]]&#62;"><!ENTITY cd "<![CDATA[&e;]]>">'
            '<!ENTITY co "<!--&e;-->"><!ENTITY pi "<?p &e;?>"><!ENTITY q "\'&#34;"><!ENTITY amp "&#38;#38;"><!ENTITY a38 "&#38;#38;"><!ENTITY av "<a x=\'1&#13;2&#9;&#10;3&#13;&#10;&#38;#13;\'/>">'
            '<!ENTITY ws "&#13;&#9;&#13;&#10;">]><r>',
        first=['&e;', '&f;', '&g;', '&lt2;', '&k;', '&z;', '&s;', '&cd;', '&co;', '&pi;', '&q;', '&amp;', '<a>', '</a>', 't', '<a x="&e;"/>', '<a x="&lt2;&q;"/>', '<a x="&z;&amp;&s;"/>',
               "<a x='&q;'/>", '<![CDATA[&e;]]>', '<!--&e;-->', '<?p &l;?>', '&lt;', '&a38;', '<a x="&a38;"/>', '&av;', '&ws;', '<a x="&ws;"/>'],
        odd=['&l;', '&m;', '&o;', '&c;', '&u;', '&w;', '&undef;', '<a x="&f;"/>', '<a x="&l;"/>', '<a x="&u;"/>', '<a x="&k;"/>', '<a x="&o;"/>', '&e', '<&e;/>', '<a &e;="1"/>', '&E;', '%e;',
             '<a x=&q;/>', '&#e;', '& e;', '&e ;']),
    # declarations of the internal subset
    'dtd': dict(
        pre=DT,
        first=['<!ELEMENT r EMPTY>', '<!ELEMENT r ANY>', '<!ELEMENT r (a)>', '<!ELEMENT a (#PCDATA)>', '<!ELEMENT a (#PCDATA|b)*>', '<!ELEMENT p:a (a,b?)+>', '<!ELEMENT b (a|(c,d*))>',
               '<!ELEMENT  c  ( a | b )* >', '<!ATTLIST r x CDATA #IMPLIED>', '<!ATTLIST r x CDATA "1" y ID #REQUIRED>', '<!ATTLIST r z (a|b) "a">', '<!ATTLIST r x NMTOKENS " a  b ">',
               '<!ATTLIST r>', '<!ATTLIST r p:x CDATA #FIXED "v">', '<!ENTITY e "v">', "<!ENTITY e '\"'>", '<!ENTITY f "&e;&#65;">', '<!ENTITY % e "v">', '<!--c-->', '<?p d?>', ' ', '\n',
               ']>', ']  >', '<!ENTITY lt "&#38;#60;">', '<!ATTLIST a b NOTATION (n) #IMPLIED>', '<!ENTITY g "&#37;">', '<!ATTLIST r x ENTITIES #IMPLIED w IDREFS #IMPLIED>', '<!ELEMENT d ((a|(b,(c|d|e)+)*),f)?>'],
        odd=['<!ELEMENT r>', '<!ELEMENT r (a>', '<!ELEMENT r (a,b|c)>', '<!ELEMENT r ()>', '<!ELEMENT r (#PCDATA|b)>', '<!ELEMENT r (#PCDATA,b)*>', '<!ELEMENT r (a|)>', '<!ELEMENT (a)>', '<!ELEMENT r(a)>',
             '<!ELEMENTr (a)>', '<!ELEMENT r EMPTYX>', '<!ELEMENT r (a)) >', '<!ELEMENT r (a ?)>', '<!ELEMENT r (b|#PCDATA)*>', '<!ATTLIST>', '<!ATTLIST r x>', '<!ATTLIST r x CDATA>', '<!ATTLIST r x CDATA v>',
             '<!ATTLIST r x FOO #IMPLIED>', '<!ATTLIST r x CDATA#IMPLIED>', '<!ATTLIST r x (a #IMPLIED>', '<!ATTLIST r x (a,b) #IMPLIED>', '<!ATTLIST r x () #IMPLIED>', '<!ATTLIST r x CDATA #FIXED>',
             '<!ATTLIST r x CDATA #FIXED"v">', '<!ATTLIST r x CDATA "<">', '<!ATTLIST r x CDATA "&u;">', '<!ATTLIST r x NOTATION #IMPLIED>', '<!ATTLIST r x CDATA "a"y CDATA "b">', '<!ENTITY e>', '<!ENTITY e v>', '<!ENTITY e"v">',
             '<!ENTITY "v">', '<!ENTITY e "v" >x', '<!ENTITY e "&">', '<!ENTITY e "%">', '<!ENTITY e "&#0;">', '<!ENTITY %e "v">', '<!ENTITY e "v', '<!FOO>', 'x', '<a/>', '&e;', '<![CDATA[x]]>', ']', '>', '<!',
             '<!ENTITY a:b "v">', '<!ELEMENT r (a)+*>', '<!ELEMENT r #PCDATA>', '<!ENTITY e "v" x>', '<!--a--b-->', '<?xml?>', '<!ELEMENT r ANY x>', '<!ENTITY % a:b "v">', '<!ENTITY %  e"v">', '<!ENTITY % "v">', '<!ELEMENT r (((a|b,c)))>', '<!ELEMENT r ((a,(b|c,d)))>', '<!ELEMENT r (a|(b,(c|d|e),(f,g|h)))>', '<!ELEMENT r ((a|b),c|d)>']),
    # content models character by character
    'model': dict(
        pre=DT + '<!ELEMENT r (', probes=[')>', '>', 'a)>', '))>', 'a))>', ')))>', 'a)))>'],
        first=['a', 'b', '(', ')', '|', ',', '?', '*', '+', ' ', '#PCDATA', ')>', '>'],
        odd=['#', '-', '%', ')*>']),
    # attribute declarations and the attributes of tags
    'att': dict(
        pre=DT + '<!ENTITY e "e e"><!ENTITY t "&#9;"><!ENTITY n "&#38;#10;">',
        first=['<!ATTLIST r x CDATA " d  d ">', '<!ATTLIST r x NMTOKENS " d  d ">', '<!ATTLIST r y ID #IMPLIED>', '<!ATTLIST r y CDATA #FIXED "&e; ">', '<!ATTLIST r z (a|b) " a ">', '<!ATTLIST r xmlns:p CDATA "u">',
               '<!ATTLIST r p:x NMTOKEN "&#32;q&#32;">', '<!ATTLIST r xmlns CDATA "d">', '<!ATTLIST a x CDATA "other">', '<!ATTLIST r x ENTITY #REQUIRED>', '<!ATTLIST a x IDREFS " i  j " y CDATA "&lt;&e;">',
               '<!ATTLIST p:r x CDATA "1">', ']><r/>', ']><r x=" v  w "/>', ']><r><a/><a x="  1  2 "/></r>', ']><r y=" &e;&#32; " z=" b ">t</r>', ']><r x="&#9;&#10;&#13;\t\n\r\n\r"/>', ']><r x="a&#32;&#32;b &t; &n;"/>',
               ']><r xmlns:p="v" p:x=" 1  1 "/>', ']><r xmlns="e" x="&lt;&amp;&gt;&quot;&apos;"/>', ']><p:r xmlns:p="u" y="2"/>', ']><r x=""  y=\' \' />', ']><r><r y="&e;"><a/></r><r/></r>'],
        odd=[']><r x="1" x="2"/>', ']><r x="<"/>', ']><r x="&u;"/>', ']><r p:x="1"/>', ']><r x/>', ']><r x=1/>', ']><r x="1"y="2"/>', ']><r x="&#0;"/>', ']><r x="&amp"/>', ']><r x="&"/>', ']><r x="1/>']),
    # the XML declaration piece by piece
    'decl': dict(
        pre='<?xml', open=True, probes=['?><r/>', '>', '"?><r/>', ' version="1.0"?><r/>', 'version="1.0"?><r/>', '="1.0"?><r/>', '"1.0"?><r/>', '="UTF-8"?><r/>', '="yes"?><r/>'],
        first=[' version="1.0"', " version = '1.0'", '\nversion="1.0"', ' encoding="UTF-8"', " encoding='utf-8'", ' standalone="yes"', " standalone = 'no'", ' ', '\n', '?>', '?><r/>', '\t', ' encoding="iso-8859-1"', ' encoding = "us-ascii" '],
        odd=['version="1.0"', 'encoding="UTF-8"', 'standalone="yes"', ' standalone="maybe"', ' version="1"', ' version=""', ' version=1.0', ' version="1.0\'', ' version', '=', '"1.0"', "'1.0'", ' encoding=""', ' encoding="8bit"',
             ' encoding', ' encoding="a b"', ' standalone', ' standalone=""', ' Version="1.0"', ' version="1.1"', ' version="1.100"', ' version="1.0123456789"', ' version="1.0a"', ' version="1.10a"', ' version="1.0 "', ' version="1.0.0"', '?', '>', 'x', ' a="b"', '<r/>', '\r', ' version="a.b"', ' STANDALONE="yes"', ' standalone="YES"']),
}


def fragments(name, kind):
    a = ALPHABETS[name]
    return a['first'] + ([] if kind == 'walk' else a['odd'])


def codes(s):
    return [ord(c) for c in s]


def alpha(name, kind, lo, hi):
    a = ALPHABETS[name]
    return dict(pre=codes(a['pre']), frags=[codes(f) for f in fragments(name, kind)], probes=[codes(p) for p in a.get('probes', [])],
                open=a.get('open', False), min=lo, max=hi, ends=kind == 'walk')

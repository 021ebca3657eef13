"""What each check builds and how much it runs.  id -> (binary, quick cases, thorough cases)"""
EXPAT = ['-lexpat']
XML2 = ['-lxml2']
XERCES = ['-lxerces-c']
# binary -> (list of (source, backend), libs, sanitizer, backends)
BINARIES = {
 'xslt': ([('xslt_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'tag': ([('tag_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'net': ([('net_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'str': ([('str_props.cpp', None), ('str_narrow.cpp', None), ('str_wide.cpp', None), ('str_opaque.cpp', None), ('str_html.cpp', None)], EXPAT + ['-Wl,--allow-multiple-definition'], 'asan', ('expat',)),
 'util': ([('util_props.cpp', None)], EXPAT + XML2, 'asan', ('expat',)),
 'be': ([('be_props.cpp', None), ('be_expat.cpp', 'expat'), ('be_libxml2.cpp', 'libxml2'), ('be_xerces.cpp', 'xerces')], EXPAT + XML2 + XERCES, 'asan', ('expat', 'libxml2', 'xerces')),
 'sax2': ([('sax2_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'sax': ([('sax_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'xp2': ([('xp2_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'dom2': ([('dom2_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'dom': ([('dom_props.cpp', None)], EXPAT, 'asan', ('expat',)),
 'xp': ([('xp_props.cpp', None)], EXPAT, 'asan', ('expat',)),
}
CHECKS = {
 'G01': ('tag', 60000, 1200000),
 'G02': ('tag', 200000, 4000000),
 'T01': ('xslt', 20000, 400000),
 'T02': ('xslt', 20000, 400000),
 'T03': ('xslt', 20000, 400000),
 'T04': ('xslt', 12000, 400000),
 'T05': ('xslt', 10000, 400000),
 'X01': ('xp', 30000, 600000),
 'X02': ('xp', 30000, 600000),
 'X03': ('xp', 30000, 600000),
 'X04': ('xp', 20000, 400000),
 'X05': ('xp2', 60000, 600000),
 'X06': ('xp2', 40000, 200000),
 'D01': ('dom', 120000, 3000000),
 'D02': ('dom', 60000, 1500000),
 'D03': ('dom', 100000, 2500000),
 'D04': ('dom', 40000, 1000000),
 'D05': ('dom', 100000, 2500000),
 'D06': ('dom', 100000, 2500000),
 'D07': ('dom2', 100000, 2500000),
 'D08': ('dom2', 60000, 1500000),
 'D09': ('dom2', 40000, 1000000),
 'S01': ('sax', 60000, 1500000),
 'S02': ('sax', 60000, 1500000),
 'S03': ('sax', 30000, 700000),
 'S04': ('be', 60000, 1500000),
 'U01': ('util', 1500000, 40000000),
 'U02': ('util', 400000, 10000000),
 'U03': ('util', 2000000, 50000000),
 'U04': ('util', 800000, 20000000),
 'U05': ('util', 800000, 20000000),
 'U06': ('net', 150000, 4000000),
 'W01': ('str', 40000, 1000000),
 'S05': ('sax2', 100000, 2500000),
 'S06': ('sax2', 150000, 3500000),
 'S07': ('sax2', 400000, 9000000),
 'S08': ('sax2', 200000, 4000000),
 'S09': ('sax2', 800000, 20000000),
}

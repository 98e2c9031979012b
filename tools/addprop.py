"""tools/addprop.py FILE: insert the prop(...) calls of FILE into catalog.py before NA (replacing entries of the same id)"""
import re
import sys
p = __file__.replace('addprop', 'catalog')
s = open(p, encoding='utf-8').read()
new = open(sys.argv[1], encoding='utf-8').read().strip('\n') + '\n'
for pid in re.findall(r"^prop\('(C\d+)'", new, re.M):
    s = re.sub(r"^prop\('" + pid + r"'.*?(?=^prop\(|^NA = \[)", '', s, flags=re.M | re.S)
i = s.index('\nNA = [')
s = s[:i].rstrip('\n') + '\n\n' + new + s[i:]
open(p, 'w', encoding='utf-8').write(s)

#!/usr/bin/env python3
"""Writes mc/pair/std/matrix.go: types with every combination of (un)marshaling
methods and receivers over three kinds of types. Run genpair.sh afterwards."""
import itertools, os
out = ['package std', '', 'import (', '\txml "encoding/xml"', '\t"errors"', '\t"reflect"', ')', '',
       '// Made by tools/genmatrix.py.', '']
names = []
kinds = {'S': ('struct{ S string }', 'm.S', 'm.S += %s'),
         'N': ('string', 'string(%s)', None),
         'L': ('[]string', 'cat(%s)', None)}
for kind in 'SNL':
    for combo in itertools.product('nvp', repeat=3):
        n = 'M' + kind + ''.join(combo)
        names.append(n)
        out.append(f'type {n} {kinds[kind][0]}\n')
        for which, r in zip('XAT', combo):
            if r == 'n':
                continue
            star = '*' if r == 'p' else ''
            val = {'S': 'm.S', 'N': f'string({star}m)', 'L': f'cat({star}m)'}[kind]
            if which == 'X':
                out.append(f'func (m {star}{n}) MarshalXML(e *xml.Encoder, start xml.StartElement) error {{\n\treturn e.EncodeElement("X"+{val}, start)\n}}\n')
            elif which == 'A':
                out.append(f'func (m {star}{n}) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {{\n\treturn xml.Attr{{Name: name, Value: "A" + {val}}}, nil\n}}\n')
            else:
                out.append(f'func (m {star}{n}) MarshalText() ([]byte, error) {{ return []byte("T" + {val}), nil }}\n')
    for combo in itertools.product('nvp', repeat=3):
        n = 'U' + kind + ''.join(combo)
        names.append(n)
        out.append(f'type {n} {kinds[kind][0]}\n')
        for which, r in zip('XAT', combo):
            if r == 'n':
                continue
            star = '*' if r == 'p' else ''
            def body(x):
                if r == 'v':
                    return f'\treturn errors.New("{which}:" + {x})\n'
                if kind == 'S':
                    return f'\tm.S += "{which}" + {x}\n\treturn nil\n'
                if kind == 'N':
                    return f'\t*m += {n}("{which}" + {x})\n\treturn nil\n'
                return f'\t*m = append(*m, "{which}"+{x})\n\treturn nil\n'
            if which == 'X':
                out.append(f'func (m {star}{n}) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {{\n\tvar s string\n\tif err := d.DecodeElement(&s, &start); err != nil {{\n\t\treturn err\n\t}}\n{body("s")}}}\n')
            elif which == 'A':
                out.append(f'func (m {star}{n}) UnmarshalXMLAttr(a xml.Attr) error {{\n{body("a.Value")}}}\n')
            else:
                out.append(f'func (m {star}{n}) UnmarshalText(b []byte) error {{\n{body("string(b)")}}}\n')
out.append('func cat(l []string) (s string) {\n\tfor _, x := range l {\n\t\ts += x\n\t}\n\treturn s\n}\n')
out.append('// Matrix lists the types of this file.\nfunc Matrix() []Type {\n\treturn []Type{')
for n in names:
    out.append(f'\t\t{{"{n}", reflect.TypeFor[{n}]()}},')
out.append('\t}\n}')
open(os.path.join(os.path.dirname(__file__), '../mc/pair/std/matrix.go'), 'w').write('\n'.join(out) + '\n')

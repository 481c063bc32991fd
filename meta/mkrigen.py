#!/usr/bin/env python3
"""Authoring-time generator of harness/ri_gen.h from the interface description ri.xml.

The output is committed, so the checks' notion of the interface does not follow later edits
of the repository's own code generation."""
import xml.etree.ElementTree as E, os, re
t = E.parse('/repo/libs/riutil/ri.xml')
K = {'RtInt':'i','RtBoolean':'i','RtFloat':'f','RtToken':'s','RtString':'s','RtColor':'c','RtMatrix':'m','RtBasis':'m',
     'RtBound':'b','RtPoint':'p','RtIntArray':'I','RtFloatArray':'F','RtTokenArray':'S','RtStringArray':'S',
     'RtFilterFunc':'X','RtErrorFunc':'E','RtArchiveCallback':'A'}
CT = {'RtInt':'RtInt','RtBoolean':'RtBoolean','RtFloat':'RtFloat','RtToken':'RtConstToken','RtString':'RtConstString',
      'RtColor':'RtConstColor','RtMatrix':'RtConstMatrix','RtBasis':'RtConstBasis','RtBound':'RtConstBound','RtPoint':'RtConstPoint',
      'RtIntArray':'const IntArray&','RtFloatArray':'const FloatArray&','RtTokenArray':'const TokenArray&','RtStringArray':'const StringArray&',
      'RtFilterFunc':'RtFilterFunc','RtErrorFunc':'RtErrorFunc','RtArchiveCallback':'RtArchiveCallback'}
rec, app, tab, capi = [], [], [], []
def capi_line(p, name, args):
    if name in ('Procedural', 'MotionBegin'): return
    idx, j = {}, 0
    for n,k,ty,a in args:
        if k == 'A': continue
        idx[n] = (j, k); j += 1
    out, pl = [], None
    for a in p.find('Arguments'):
        if a.tag == 'ParamList': pl = idx['pList'][0]; continue
        if a.tag != 'Argument': continue
        if a.find('RibOnly') is not None: continue
        rv = a.find('RibValue')
        if rv is not None and not rv.text: out.append('H.handle(c.a[%d].s[0])' % idx['name'][0]); continue
        if rv is not None:
            e = rv.text
            if e == 'countP(pList)': out.append('(RtInt)capiCountP(c.a[%d].pl)' % idx['pList'][0])
            else:
                m = re.match(r'size\((\w+)\)(/3)?$', e); jj, k = idx[m.group(1)]
                out.append('(RtInt)c.a[%d].%s.size()%s' % (jj, {'I':'i','F':'f','S':'s'}[k], m.group(2) or ''))
            continue
        n, ty = a.find('Name').text, a.find('Type').text; k = K[ty]
        if k == 'A': out.append('(RtArchiveCallback)0'); continue
        if name in ('LightSource', 'AreaLightSource', 'ObjectBegin') and n == 'name': continue
        v = 'c.a[%d]' % idx[n][0]
        if ty == 'RtLightHandle' or ty == 'RtObjectHandle' or (name in ('Illuminate','ObjectInstance') and n == 'name'): out.append('H.handle(%s.s[0])' % v); continue
        out.append({'i':'(RtInt)%s.i[0]','f':'%s.f[0]','s':'H.str(%s.s[0])','c':'H.flts(%s.f)','p':'H.flts(%s.f)','b':'H.flts(%s.f)','m':'(RtFloat(*)[4])H.flts(%s.f)',
                    'I':'H.ints(%s.i)','F':'H.flts(%s.f)','S':'H.strs(%s.s)','X':'capiFilter(%s.s[0])','E':'capiError(%s.s[0])'}[k] % v)
    a = ', '.join(out)
    if pl is None: capi.append('    if (c.name == "%s") { %sRi%s(%s)%s; return; }' % (name, 'H.made(' if name == 'ObjectBegin' else '', name, a, ')' if name == 'ObjectBegin' else '')); return
    w = ('H.made(', ')') if 'LightSource' in name else ('', '')
    if name == 'Points' or name == 'Polygon': pass
    sep = ', ' if a else ''
    l = '    if (c.name == "%s") { H.plist(c.a[%d].pl, tok); int n = (int)H.tok.size(); if (!va || n > 3) %sRi%sV(%s%sn, H.toks(), H.vals())%s;' % (name, pl, w[0], name, a, sep, w[1])
    for q in range(4):
        l += ' else if (n == %d) %sRi%s(%s%s%sRI_NULL)%s;' % (q, w[0], name, a, sep, ''.join('H.tok[%d], H.val[%d], ' % (x, x) for x in range(q)), w[1])
    capi.append(l + ' return; }')
for p in t.findall('Procedures/Procedure'):
    if p.find('Rib') is None: continue
    name = p.find('Name').text
    if name == 'Procedural': sig = None
    args = []
    for a in p.find('Arguments'):
        if a.tag == 'ParamList': args.append(('pList','L',None,a)); continue
        if a.tag != 'Argument': continue
        if a.find('RibValue') is not None: continue
        args.append((a.find('Name').text, K.get(a.find('Type').text,'?'), a.find('Type').text, a))
    sc = p.find('ValidScope')
    scopes = ','.join(x.tag for x in sc) if sc is not None else '*'
    rows = []
    for n,k,ty,a in args:
        rng = ''.join('%s %s;' % (x.tag, x.text) for x in a.find('Range')) if a.find('Range') is not None else ''
        ln = a.find('Length').text if a.find('Length') is not None else ''
        opt = 'opt' if (k=='L' and a.find('Optional') is not None) else ''
        rows.append('{"%s","%s","%s","%s","%s"}' % (n,k,rng,ln,opt))
    il = p.find('IClassLengths')
    ic = ''
    if il is not None:
        ic = ';'.join('%s=%s' % (x.tag, x.text) for x in il).replace('"', "'")
    tab.append('{"%s","%s",{%s},"%s"}' % (name, scopes, ','.join(rows), ic))
    capi_line(p, name, args)
    if name == 'Procedural':
        rec.append('    virtual RtVoid Procedural(RtPointer data, RtConstBound bound, RtProcSubdivFunc refineproc, RtProcFreeFunc freeproc) { recProcedural(data, bound, refineproc, freeproc); }')
        app.append('    if (c.name == "Procedural") { applyProcedural(c, r, env); return; }')
        continue
    decl = ', '.join((('const ParamList& ' if k=='L' else CT[ty]+' ')+n) for n,k,ty,a in args)
    body = 'Call c("%s"); ' % name + ' '.join(
        {'i':'c.I1(%s);','f':'c.F1(%s);','s':'c.S1(%s);','c':'c.FN(%s,3);','p':'c.FN(%s,3);','b':'c.FN(%s,6);','m':'c.FN(&%s[0][0],16);',
         'I':'c.IA(%s);','F':'c.FA(%s);','S':'c.SA(%s);','L':'c.PL(%s);','X':'c.S1(filterName(%s));','E':'c.S1(errorName(%s));','A':'/*%s*/'}[k] % n for n,k,ty,a in args) + ' add(c);'
    rec.append('    virtual RtVoid %s(%s) { %s }' % (name, decl, body))
    out, j = [], 0
    pre = ''
    for n,k,ty,a in args:
        if k == 'A': out.append('0'); continue
        v = 'c.a[%d]' % j; j += 1
        if k=='i': out.append('(%s)%s.i[0]' % ('RtBoolean' if ty=='RtBoolean' else 'RtInt', v))
        elif k=='f': out.append('%s.f[0]' % v)
        elif k=='s': out.append('%s.s[0].c_str()' % v)
        elif k in 'cpb': out.append('&%s.f[0]' % v)
        elif k=='m': out.append('*(RtConst%s*)&%s.f[0]' % ('Matrix' if ty=='RtMatrix' else 'Basis', v))
        elif k=='I': out.append('%s.ints()' % v)
        elif k=='F': out.append('%s.floats()' % v)
        elif k=='S': pre += 'StrHold h%d(%s.s); ' % (j, v); out.append('h%d.arr()' % j)
        elif k=='L': pre += 'PListHold h%d(%s.pl); ' % (j, v); out.append('h%d.list()' % j)
        elif k=='X': out.append('env.filter(%s.s[0])' % v)
        elif k=='E': out.append('env.error(%s.s[0])' % v)
    app.append('    if (c.name == "%s") { %sr.%s(%s); return; }' % (name, pre, name, ', '.join(out)))
o = open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/ri_gen.h'),'w')
o.write('// Generated by meta/mkrigen.py from the interface description; committed as a fixed specification.\n')
o.write('#ifdef RI_GEN_TABLE\nstatic const Proc procTable[] = {\n' + ',\n'.join(tab) + '\n};\n#endif\n')
o.write('#ifdef RI_GEN_RECORDER\n' + '\n'.join(rec) + '\n#endif\n')
o.write('#ifdef RI_GEN_APPLY\n' + '\n'.join(app) + '\n#endif\n')
o.write('#ifdef RI_GEN_CAPI\n' + '\n'.join(capi) + '\n#endif\n')

"""Compact pretty printer for the extracted THIR (debug aid)."""
import json, sys

def ty(t):
    if t is None: return '?'
    k = t.get('k')
    if k == 'adt':
        a = [ty(x) for x in t.get('a', [])] + [str(c) for c in t.get('c', [])]
        n = t['p'].split('::')[-1]
        return n + ('<' + ','.join(a) + '>' if a else '')
    if k == 'ref': return '&' + ('mut ' if t.get('m') else '') + ty(t['t'])
    if k in ('int', 'uint', 'param', 'float'): return t.get('n', k)
    if k == 'tuple': return '(' + ','.join(ty(x) for x in t['ts']) + ')'
    if k == 'slice': return '[' + ty(t['t']) + ']'
    if k == 'array': return '[' + ty(t['t']) + ';' + str(t.get('n')) + ']'
    return k + (':' + str(t.get('n')) if t.get('n') else '')

def pat(p):
    k = p['k']
    if k == 'wild': return '_'
    if k == 'bind':
        return p['by'].replace('val', '') + ' ' * 0 + p['n'] + '#' + str(p['v']) + ('@' + pat(p['sub']) if p.get('sub') else '')
    if k == 'variant': return p['d'].split('::')[-1] + '::' + p['vn'] + '(' + ','.join(n + ':' + pat(s) for n, s in p['fs']) + ')'
    if k == 'leaf': return '{' + ','.join(n + ':' + pat(s) for n, s in p['fs']) + '}'
    if k == 'deref': return '&' + pat(p['sub'])
    if k == 'const': return 'const ' + str(p.get('v'))
    if k == 'or': return '|'.join(pat(x) for x in p['ps'])
    return k

def sh(e, i=0):
    if e is None: return '<none>'
    k = e['k']; I = '  ' * i
    g = lambda x: sh(x, i)
    if k == 'block':
        o = '{\n'
        for s in e['st']:
            o += I + '  '
            if s['k'] == 'let':
                o += 'let ' + pat(s['pat']) + ' = ' + (sh(s['init'], i + 1) if s.get('init') else '?')
                if s.get('els'): o += ' else ' + sh(s['els'], i + 1)
            else: o += sh(s['e'], i + 1)
            o += ';\n'
        if e.get('e'): o += I + '  ' + sh(e['e'], i + 1) + '\n'
        return o + I + '}'
    if k == 'if': return 'if ' + g(e['c']) + ' ' + g(e['th']) + (' else ' + g(e['el']) if e.get('el') else '')
    if k == 'call':
        f = e.get('f'); a = ', '.join(g(x) for x in e['args'])
        if f:
            n = f.get('rd') or f['d']
            tag = ''
            if f.get('tr'): tag = '^' if not f.get('rd') else '~'
            ca = ('<' + ','.join(str(c) for c in f['ca']) + '>') if f.get('ca') else ''
            return n.replace('circuit_converters::', '@') + tag + ca + '(' + a + ')'
        return '(' + g(e['fe']) + ')(' + a + ')'
    if k == 'deref': return '*' + g(e['a'])
    if k == 'bin' or k == 'logic': return '(' + g(e['l']) + ' ' + e['op'] + ' ' + g(e['r']) + ')'
    if k == 'un': return e['op'] + '(' + g(e['a']) + ')'
    if k == 'cast': return '(' + g(e['a']) + ' as ' + ty(e['t']) + ')'
    if k == 'loop': return 'loop ' + g(e['b'])
    if k == 'let': return 'let ' + pat(e['pat']) + ' = ' + g(e['e'])
    if k == 'match':
        o = 'match[' + e['src'] + '] ' + g(e['e']) + ' {\n'
        for a in e['arms']:
            o += I + '  ' + pat(a['pat']) + (' if ' + sh(a['guard'], i + 1) if a.get('guard') else '') + ' => ' + sh(a['b'], i + 1) + '\n'
        return o + I + '}'
    if k in ('assign',): return g(e['l']) + ' = ' + g(e['r'])
    if k == 'assignop': return g(e['l']) + ' ' + e['op'] + ' ' + g(e['r'])
    if k == 'field': return g(e['a']) + '.' + str(e['n'])
    if k == 'index': return g(e['a']) + '[' + g(e['i']) + ']'
    if k in ('var', 'upvar'): return e.get('n', '') + '#' + str(e['v'])
    if k == 'borrow': return '&' + ('mut ' if e['m'] else '') + g(e['a'])
    if k == 'break': return 'break ' + str(e.get('l')) + (g(e['e']) if e.get('e') else '')
    if k == 'continue': return 'continue ' + str(e.get('l'))
    if k == 'return': return 'return ' + (g(e['e']) if e.get('e') else '')
    if k == 'repeat': return '[' + g(e['e']) + ';' + str(e['c']) + ']'
    if k in ('array', 'tuple'): return k + '(' + ', '.join(g(x) for x in e['es']) + ')'
    if k == 'adt': return e['d'].split('::')[-1] + '::' + e['vn'] + '{' + ', '.join(n + ':' + g(x) for n, x in e['fs']) + '}' + ('..' if e.get('base') else '')
    if k == 'closure': return 'closure ' + e['d'] + '[' + ', '.join(g(x) for x in e['ups']) + ']'
    if k == 'lit': return repr(e.get('v')) if 'v' in e else 'lit(' + str(e.get('file')) + ')'
    if k == 'zst': return 'zst ' + str(e.get('f', {}).get('d'))
    return k + '(' + ','.join(f'{a}={b}' for a, b in e.items() if a not in ('t', 'sp', 'k') and not isinstance(b, (dict, list))) + ')' + ''.join('<' + g(b) + '>' for a, b in e.items() if a not in ('t',) and isinstance(b, dict) and 'k' in b and 'sp' in b)

if __name__ == '__main__':
    J = json.load(open(sys.argv[1]))
    for f in J['fns']:
        if f['path'].endswith(sys.argv[2]) or (len(sys.argv) > 3 and sys.argv[2] in f['path']):
            print('fn', f['id'], f['path'], '(' + ', '.join(pat(p['pat']) + ':' + ty(p['t']) for p in f['params']) + ') ->', ty(f['ret']))
            print(sh(f['body']))

"""P19: every document is a complete, well-formed LaTeX source."""
import re

from checks.wcommon import *   # noqa
from checks.gen import *   # noqa
from checks.requests import KINDS, perform, elsewhere

LEVEL = 'model_checking'
ASSUMPTIONS = ['no LaTeX run: the listed rules (document structure, nesting, scripts, alignment, commands with their packages) '
               'are what is checked']
KERNEL = set('''begin end documentclass usepackage newcommand renewcommand NewDocumentCommand frac hat bar tilde vec dagger sum prod int
 left right textbf textit textrm emph section subsection subsubsection paragraph newpage clearpage vspace hspace quad qquad cdots
 ldots dots equiv approx times cdot neq leq geq pm infty partial rangle langle label ref item noindent par sqrt mathrm mathbf
 Big big bigg Bigg big alpha beta gamma delta epsilon varepsilon zeta eta theta iota kappa lambda mu nu xi pi rho sigma tau
 upsilon phi varphi chi psi omega Gamma Delta Theta Lambda Xi Pi Sigma Upsilon Phi Psi Omega underbrace overbrace overline
 underline displaystyle large Large small title author date maketitle tableofcontents footnotesize centering'''.split())
PACKAGES = {
    'geometry': {'geometry'}, 'amsmath': {'text', 'dfrac', 'tfrac', 'binom', 'notag', 'nonumber', 'eqref', 'DeclareMathOperator',
                                          'intertext', 'operatorname'},
    'amssymb': {'mathbb', 'hbar', 'mathfrak'}, 'bm': {'bm'}, 'physics': {'dv', 'bra', 'ket', 'mel', 'pdv', 'braket', 'qty', 'ev', 'comm'},
    'simplewick': {'contraction', 'bcontraction'}, 'dsfont': {'mathds'}, 'color': {'color', 'colorbox', 'textcolor'},
    'graphicx': {'includegraphics', 'resizebox', 'scalebox'}, 'natbib': {'citep', 'citet'},
}
ENV = {'align': 'amsmath', 'align*': 'amsmath', 'split': 'amsmath', 'gather': 'amsmath', 'multline': 'amsmath', 'aligned': 'amsmath'}
MATH = {'equation', 'equation*', 'displaymath', 'math'} | set(ENV)
ALIGN = {'align', 'align*', 'split', 'aligned'}
TWO_ARGS = {'frac', 'dfrac', 'tfrac', 'binom'}
ONE_ARG = {'hat', 'bar', 'textbf', 'textit', 'text', 'bm', 'mathds', 'section', 'subsection', 'ket', 'bra', 'up', 'down', 'color', 'emph', 'dv'}
TOKEN = re.compile(r'\\begin\{([^{}]*)\}|\\end\{([^{}]*)\}|\\([A-Za-z]+)|(\\.)|([{}$^_&])|(\s+)|(.)', re.S)


class Twice(Exception):
    pass


class Frame:
    def __init__(self, kind, math):
        self.kind, self.math = kind, math
        self.new_nucleus()
        self.amps = 0

    def new_nucleus(self):
        self.nucleus, self.scripts = False, set()


def commands(preamble):
    """(commands the preamble makes available, packages)"""
    pk = set()
    for x in re.findall(r'\\usepackage(?:\[[^\]]*\])?\{([^{}]*)\}', preamble):
        pk |= {y.strip() for y in x.split(',')}
    own = set(re.findall(r'\\(?:re)?newcommand\*?\{?\\([A-Za-z]+)\}?', preamble)) | \
        set(re.findall(r'\\NewDocumentCommand\{?\\([A-Za-z]+)\}?', preamble))
    known = set(own)
    for p in pk:
        known |= PACKAGES.get(p, set())
    new = re.findall(r'\\newcommand\*?\{?\\([A-Za-z]+)\}?', preamble)
    for name in new:
        if new.count(name) > 1 or name in KERNEL:
            raise Twice(f'\\{name} is defined although it exists')
    return KERNEL | known, pk, own


def definitions(preamble):
    """{command: (number of arguments, what it stands for)}"""
    out = {}
    for m in re.finditer(r'\\(?:re)?newcommand\*?\{?\\([A-Za-z]+)\}?\s*(?:\[(\d)\])?(?:\[[^\]]*\])?\s*\{|'
                         r'\\NewDocumentCommand\{?\\([A-Za-z]+)\}?\s*\{((?:[^{}]|\{[^{}]*\})*)\}\s*\{', preamble):
        i, depth = m.end(), 1
        while i < len(preamble) and depth:
            depth += {'{': 1, '}': -1}.get(preamble[i], 0) if preamble[i - 1] != '\\' else 0
            i += 1
        nargs = len(re.findall('[A-Za-z]', re.sub(r'\{[^{}]*\}', '', m[4]))) if m[3] else int(m[2] or 0)
        out[m[1] or m[3]] = (nargs, preamble[m.end():i - 1])
    return out


def meaning(preamble, body):
    """commands of the preamble that do not show what they stand for, or None"""
    used = set(re.findall(r'\\([A-Za-z]+)', body))
    seen = {}
    for name, (nargs, text) in definitions(preamble).items():
        if name not in used:
            continue
        for k in range(1, nargs + 1):
            if f'#{k}' not in text:
                return f'\\{name} does not print its argument'
        if re.fullmatch('b[A-Za-z]', name) and nargs == 0:
            letters = re.findall('[A-Za-z]', re.sub(r'[_^]\{[^{}]*\}|\\[A-Za-z]+', '', text))
            if letters != [name[1]]:
                return f'\\{name} prints {"".join(letters)!r}'
        key = re.sub(r'\s+', '', text)
        if key in seen:
            return f'\\{name} and \\{seen[key]} print the same'
        seen[key] = name
    return None


def problem(text, fragment=False, available=None, packages=None):
    """the first violation of the rules, or None"""
    text = re.sub(r'(?<!\\)%[^\n]*\n?[ \t]*', '', text)        # a comment swallows the end of its line
    if not fragment:
        if not text.lstrip().startswith('\\documentclass'):
            return 'does not start with \\documentclass'
        if text.count('\\begin{document}') != 1 or text.count('\\end{document}') != 1:
            return 'not exactly one document'
        pre, body = text.split('\\begin{document}')
        if '\\end{document}' not in body:
            return 'document ended before it began'
        body, rest = body.split('\\end{document}')
        if rest.strip():
            return f'text after the document: {rest.strip()[:40]!r}'
        try:
            available, packages, own = commands(pre)
        except Twice as e:
            return f'preamble: {e}'
        p = scan(pre, available | set('#'), packages, preamble=True)
        if p:
            return 'preamble: ' + p
        p = meaning(pre, body)
        if p:
            return 'preamble: ' + p
        text = body
    return scan(text, available, packages, blank_lines=fragment)


def scan(text, available, packages, preamble=False, blank_lines=False):
    stack = [Frame('text', False)]
    want = []                    # arguments a command still needs
    script = False               # the next token is a script
    last = 'text'
    for m in TOKEN.finditer(text):
        begin, end, cmd, esc, special, space, other = m.groups()
        top = stack[-1]
        where = f'at ...{text[max(0, m.start() - 25):m.start() + 15]!r}'
        if space is not None:
            if top.math and '\n' in space and re.search(r'\n[ \t]*\n', space) and not preamble and not blank_lines:
                return f'blank line in a formula {where}'
            continue
        if preamble and (cmd or begin or end or special in ('$', '^', '_', '&')):
            if cmd and cmd not in available:
                return f'\\{cmd} is not defined {where}'
            continue
        if script and (special in ('}', '^', '_', '&', '$') or begin or end is not None or esc == '\\\\'):
            return f'script without argument {where}'
        if begin is not None:
            if begin in ENV and ENV[begin] not in packages:
                return f'environment {begin} without package {ENV[begin]}'
            if begin in MATH and top.math and begin not in ('split', 'aligned'):
                return f'environment {begin} inside a formula {where}'
            if begin == 'split' and not top.math:
                return f'split outside a formula {where}'
            stack.append(Frame('env ' + begin, begin in MATH or top.math))
        elif end is not None:
            if top.kind != 'env ' + end:
                return f'\\end{{{end}}} closes {top.kind} {where}'
            stack.pop()
            stack[-1].new_nucleus()
        elif special == '{':
            stack.append(Frame('group', top.math))
            stack[-1].is_script = script
            if not script:
                top.new_nucleus()
                top.nucleus = True
            script = False
        elif special == '}':
            if top.kind != 'group':
                return f'closing brace inside {top.kind} {where}'
            stack.pop()
        elif special == '$':
            if top.kind == 'math $':
                stack.pop()
            elif top.math:
                return f'$ inside a formula {where}'
            else:
                stack.append(Frame('math $', True))
        elif special in ('^', '_'):
            if not top.math:
                return f'{special} outside a formula {where}'
            if special in top.scripts:
                return f'double script {where}'
            top.scripts.add(special)
            script = True
        elif special == '&':
            if not top.kind.startswith('env ') or top.kind[4:] not in ALIGN:
                return f'& inside {top.kind} {where}'
            top.amps += 1
            if top.amps > 1 and top.kind == 'env split':
                return f'two alignment marks in a row {where}'
            top.new_nucleus()
        elif esc == '\\\\':
            if top.math and top.kind[:4] != 'env ':
                return f'new line inside {top.kind} {where}'
            top.amps = 0
            top.new_nucleus()
        else:
            name = cmd or esc or other
            if cmd == 'left':
                stack.append(Frame('left', top.math))
                continue
            if cmd == 'right':
                if top.kind != 'left':
                    return f'\\right inside {top.kind} {where}'
                stack.pop()
                stack[-1].new_nucleus()
                continue
            if cmd and cmd not in available:
                return f'\\{cmd} is not defined {where}'
            if cmd in ONE_ARG and not re.compile(r'\s*([^\s}&^_$\\]|\\[A-Za-z])').match(text, m.end()):
                return f'\\{cmd} without argument {where}'
            if cmd in TWO_ARGS:
                i = m.end()
                for _ in range(2):
                    q = re.compile(r'\s*(?:\{|(?P<one>[^\s}&^_$\\]|\\[A-Za-z]+))').match(text, i)
                    if not q:
                        return f'\\{cmd} without its two arguments {where}'
                    i = q.end() if q['one'] else close(text, q.end())
                    if i is None:
                        return f'\\{cmd}: unbalanced {where}'
            if not script:
                top.new_nucleus()
            script = False
    if script:
        return 'script without argument at the end'
    if len(stack) > 1:
        return f'{stack[-1].kind} is not closed'
    return None


def close(text, i):
    d = 1
    while i < len(text):
        if text[i] == '\\':
            i += 1
        elif text[i] == '{':
            d += 1
        elif text[i] == '}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return None


FRAGMENT = set('bt bh bs bw bW bc bd up down'.split())


def body(ctx, M, kind, bounds):
    names, options = KINDS[kind][2:]
    numbers = [int(ctx.int(x, *bounds.get(x, (1, 1)))) for x in names]
    req = [kind, numbers, {o: bool(ctx.bool(o)) for o in options}]
    text, err, _ = perform(M, *req) if ctx.symbolic else elsewhere([req])[0]
    ctx.prove(err is None, f'{req}: raises {err}')
    frag = kind == 'w_thermal_latex'
    p = problem(text, frag, KERNEL | FRAGMENT, set(PACKAGES)) if text is not None else 'no file is written'
    ctx.prove(p is None, f'{req}: {p}')
    ctx.reach('document')


def harnesses(tier):
    quick = tier == 'quick'
    out = []

    def add(name, kind, **b):
        module, func = KINDS[kind][:2]
        out.append(Harness(name, body, [f'{module}.{func} and its callees', 'reference_latex_headers'], f'{kind}: {b}, every option',
                           params=dict(kind=kind, bounds=b)))
    add('w_latex', 'w_latex', order=(1, 16 if quick else 20))
    add('w_thermal_latex', 'w_thermal_latex', order=(1, 4))
    one, up = (1, 1), (1, 6)
    for h in (6, 5, 4, 3, 2, 1):
        add(f'full_cc_h{h}', 'full_cc_latex', H=(h, h), CC=up, S=one, P=(1, 3))
        add(f'full_cc_h{h}_s2', 'full_cc_latex', H=(h, h), CC=(1, 4), S=(2, 2 if quick else 3), P=(1, 3))
    add('full_cc_s', 'full_cc_latex', H=(1, 3), CC=one, S=up, P=(1, 3))
    add('full_cc_p', 'full_cc_latex', H=(1, 3), CC=(1, 3), S=one, P=(4, 6))      # rank 4 with larger CC is not implemented
    add('full_cc_mixed', 'full_cc_latex', H=(2, 3), CC=(2, 3), S=(2, 4), P=(1, 2))
    add('full_cc_long', 'full_cc_latex', H=(3, 5), CC=(2, 2 if quick else 3), S=(3, 3), P=(2, 3))
    add('z_t_low', 'z_t_latex', H=(1, 4), CC=up, P=up)
    add('z_t_high', 'z_t_latex', H=(5, 6), CC=up, P=up)
    for h in (6, 5, 4, 3, 2, 1):
        add(f'eT_h{h}', 'eT_z_latex', H=(h, h), CC=(1, 3), eT=(1, 4 if h < 4 else 3), P=up)
        add(f'eT_h{h}_cc', 'eT_z_latex', H=(h, h), CC=(4, 6), eT=(1, 2 if h > 3 and quick else 3), P=up)
    add('eT_t', 'eT_z_latex', H=(1, 3), CC=(1, 3), eT=(5, 6 if quick else 8), P=(1, 3))
    return out

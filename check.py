#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's working tree:
 1. expands the crates' current source, extracts the code under contract (vx), and has Verus prove every obligation;
 2. runs the property's executable oracle on the compiled crates (a bounded stand-in, labelled so in the evidence,
    and the way a failed obligation is turned into a failing input).
Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, time, shutil, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RATEL_REPO', '/repo')
TGT = os.path.join(V, 'target')
BLD = os.path.join(V, 'build')

UNITS = {
    # also: clauses of these properties are part of another one (P01 needs that the lexer advances, ends and quotes
    # what it points to; P02 that blank space and comments reach the parser through asi only)
    'lexer': dict(crates=['ratel'], props=['L01', 'L02', 'L03', 'L04', 'L05', 'P01', 'P02', 'N01'], also={'P01': ['L01'], 'P02': ['L05'], 'N01': ['L01']}),
    'visitor': dict(crates=['ratel', 'visitor'], props=['V01', 'V02', 'V03']),
    'scope': dict(crates=['ratel', 'visitor', 'transformer'], props=['S01']),
    'transform': dict(crates=['ratel', 'visitor', 'transformer'], props=['T01']),
    'codegen': dict(crates=['ratel', 'codegen'], props=['G01', 'G02', 'G03', 'O02']),
    'errfmt': dict(crates=['ratel'], props=['E01']),
    'astgen': dict(crates=['ratel'], props=['A01']),
    'wasm': dict(crates=['ratel', 'wasm'], props=['W01']),
    'parser': dict(crates=['ratel'], props=['O01', 'O02', 'P01', 'P02', 'P03', 'N01']),
}
CRATE_DIR = {'ratel': 'ratel', 'codegen': 'ratel-codegen', 'visitor': 'ratel-visitor', 'transformer': 'ratel-transformer', 'wasm': 'ratel-wasm'}
PKG = {'ratel': 'ratel', 'codegen': 'ratel-codegen', 'visitor': 'ratel-visitor', 'transformer': 'ratel-transformer', 'wasm': 'ratel-wasm'}

# what stays outside the proofs, per unit (printed in the evidence)
ASSUMED = {
    'parser': [
        "The lexer is given as the sequence of tokens it will be asked for, in the modes it is asked (spec/parser_defs.rs); what its tokens are is unit lexer, and that they run out (every token short of the end consumes a character) is L01. toks_lexed: the text of a token is one of its kind (an uninterpreted relation here, L04 there).",
        "A position is one the lexer gave for a token (of_token; within the text by N01 in unit lexer) or 0; what a node's start and end give is what it was made with, so of that kind (vx_start, vx_end).",
        "An error of the lexer quotes the text it points to: proved as Lexer::invalid_token in unit lexer, carried as err_ok here.",
        "toolshed: Arena::alloc returns a reference to its argument; List, GrowableList and ListBuilder keep what is pushed, in order. A Node is the reference it dereferences to; positions of nodes in the text are left out.",
        "Strings are only told apart: a string literal is equal to itself and no other; a string token is at least two bytes long.",
        "vx: the handler tables are rendered as functions from tokens to handlers, an indexed call as a dispatcher; generic Parse impls are proved per instance (listed with @copy in spec/parser.spec), and array_elements per closure it is called with.",
        "toolshed: List::into_unsafe and UnsafeList::into_list are inverse. Stack depth is unbounded.",
    ],
    'astgen': [
        "serde and serde_json: serializing into a value never fails and keeps each field and element it is given (spec/astgen_defs.rs: Ser, Struct, SeqSer); the impls for str, bool, numbers, Option, references and Vec, and the derived ones of RegExLiteral and TemplateElementValue, export the value they are given. Objects are compared as maps from field names: the order of fields is left open.",
        "toolshed: a List is exported as the sequence of its elements, in order; next and last of its iterator.",
        "The tree is one the parser gives: no Void expression or pattern outside array holes, no ClassMember::Error, numbers, strings and regular expressions with the text of their token (okf_* in spec/astgen_gen.rs). That every parsed tree is so is proved in unit parser (wf_stmt on the result of parse, spec/parser_wf.rs), the texts of the tokens in unit lexer (L04); that the three definitions say the same is by reading.",
        "Text is measured in bytes by uninterpreted functions; the float a text stands for (str::parse, and the fold over digits beyond 63 bits) is an uninterpreted function of the text.",
        "vx: in_loc is inlined at each place it is called with its closure; a field name is the number its bytes spell; Option<Node> elements of arrays are collected in a sequence (Holes).",
        "Generic impls (Function, Class) are proved per instance that occurs. Termination and stack depth are not part of the proof.",
    ],
    'errfmt': [
        "A String or &str is the sequence of the bytes of its UTF-8 form, no longer than half of the address space; slicing, split, lines, chars().count(), enumerate, last, skip_while and take_while do what the standard library documents (stated as contracts in spec/errfmt_defs.rs).",
        "write! writes its pieces and arguments in order: {} the decimal digits of a usize or the text, {0:1$} the digits right-aligned in that width.",
        "vx: write!'s format string is taken apart into one call per byte and argument, a closure passed to skip_while or take_while gets its own body as its contract.",
        "The start and end of the token are on character boundaries within the text (true of tokens by L01); an empty token after the last line break has no line to show.",
    ],
    'lexer': [
        "The text handed to the lexer is valid UTF-8 without an inner NUL, followed by one NUL, and shorter than 4 GiB (a NUL ends the text).",
        "char::is_alphanumeric and str::chars().next() are uninterpreted functions of the character.",
        "vx: raw pointer reads `*self.ptr.add(i)` are rendered as indexing a slice of the text, `from_utf8_unchecked(from_raw_parts(..))` as vx_slice with its safety conditions as precondition; table reads as a match over the table; handler function pointers as a generated enum and dispatcher.",
        "toolshed: Arena::alloc_str_with_nul returns a copy of the text with a NUL behind it.",
        "Stack depth is unbounded.",
    ],
    'visitor': [
        "vx: a Node is the reference it dereferences to, a List (of the toolshed crate) a recursive enum that is read front to back; Deref steps to a field are spelled out.",
        "Nodes are compared by content including their positions in the text, not by address.",
        "Generic Visitable impls are proved per instance that occurs in the syntax tree (listed with @mono in spec/visitor.spec), each from the one generic body.",
        "begin_panic in the visit of ClassMember::Error is unreachable: a program that parsed has none (proved in unit parser: wf_stmt on the result of parse, spec/parser_wf.rs).",
        "A visitor's own callbacks are described by ghost traces (any implementation is allowed to do anything else).",
        "Termination (the tree is finite) and stack depth are not part of the proof.",
    ],
    'scope': [
        "Scopes are reached through shared references and changed through cells: in the extracted text a scope reference carries its (unchanging) kind and parent, and the arena, passed mutably, carries the rest of every scope's contents by identity (spec/scope_model.rs).",
        "toolshed: BloomMap::insert adds exactly its key, GrowableList::push appends, CopyCell::set stores, Arena::alloc returns a fresh reference (the bodies of these are not verified).",
        "Scope's Debug, PartialEq, as_usize and from_usize (addresses) are left out.",
        "Generic Visitable impls are proved per instance that occurs in the syntax tree, as in the visitor unit; the traversal itself is proved again here against the events scopes are built from.",
        "begin_panic in the visit of ClassMember::Error is unreachable: a program that parsed has none (proved in unit parser: wf_stmt on the result of parse, spec/parser_wf.rs).",
        "Termination (the tree is finite) and stack depth are not part of the proof.",
    ],
    'transform': [
        "A node is the reference it held first, told apart from all others by an identity; what Node::set has stored in it since is kept in the arena's ghost map (spec/transform_model.rs): set adds one entry, a copy of a node is a node of its own that holds the same. That the nodes of a parsed tree are distinct cells, none of which has been set, is assumed (the parser makes a new one each time).",
        "Only nodes of expressions are ever set, and only the visit of an expression's node and visit_bound_expression look into one (vx_get); what set does when the cell is read again through an earlier reference (toolshed's CopyCell) is taken to be what the method says.",
        "toolshed: Arena::alloc returns a reference to its argument, NodeList::from makes a list of one. From impls of the syntax tree are written out by hand here (they are proved in unit parser).",
        "Generic Visitable impls are proved per instance that occurs in the syntax tree, as in the visitor unit; the traversal itself is proved again here.",
        "TransformerCtxt::alloc and list are used by nothing and left out, as is the field scope.",
        "begin_panic in the visit of ClassMember::Error is unreachable: a program that parsed has none (proved in unit parser: wf_stmt on the result of parse, spec/parser_wf.rs).",
        "Termination of the traversal (the tree is finite; new nodes only hold nodes of the old tree) and stack depth are not part of the proof.",
    ],
    'wasm': [
        "What parse, codegen, serde_json and the Debug impls of the syntax tree give is uninterpreted here (units parser, codegen and astgen say what the first three give; Debug is derived), as is the message that Display gives for an unexpected token (unit errfmt). Serializing never fails (unit astgen).",
        "vx: the chain into_iter, map, map, collect, join of format_errors is rendered as a loop that runs its two closures on each error in turn, and a call of join with its documented contract; a format string is only accepted as one of {}, {:?}, {:#?} and \"Error: {}\".",
        "The glue that wasm_bindgen generates (strings to and from JavaScript) is left out.",
    ],
    'codegen': [
        "What is proved is that every construct is printed exactly as spec/gen_codegen.py says (its parentheses, separators and operators, in both output modes), and that blank space of pretty output never splits what belongs together. That this printed form reads back as the same tree is not proved: it is checked on generated programs only (bounded).",
        "vx: strings are byte sequences (sb); byte-string literals, str::as_bytes and str equality keep those bytes; String::from_utf8_unchecked(code) keeps the bytes of code, which are proved to be UTF-8 where it is called; the bytes of a &str are UTF-8 (the lexer cuts its slices at character boundaries: L01).",
        "Vec::reserve, Vec::set_len and ptr::copy_nonoverlapping (into the vector's own buffer) do what the standard library documents: vx_reserve, vx_set_len, vx_copy in spec/codegen_defs.rs. Their preconditions (length within the capacity, both ranges within their buffers) are proved where they are called; that set_len is called before the bytes are written is taken to be harmless for bytes nobody reads in between.",
        "toolshed lists are a recursive enum; zip, last, filter/collect and the iterator of a list are described by specification functions on it.",
        "Generic ToCode impls are proved per instance that occurs in the syntax tree (@mono in spec/codegen_gen.spec), write_list and write_block per element type.",
        "The output is shorter than usize::MAX (a Vec cannot be longer).",
        "Termination (the tree is finite) and stack depth are not part of the proof.",
    ],
}


def sh(cmd, **kw):
    env = dict(os.environ)
    env.update(kw.pop('env', {}))
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class Undecided(Exception):
    pass


def build_tools():
    r = sh(['cargo', 'build', '--offline', '-q'], cwd=f'{V}/vx', env={'CARGO_TARGET_DIR': f'{TGT}/vx'})
    if r.returncode:
        raise SystemExit('cannot build vx:\n' + r.stderr[-3000:])


def build_harness():
    r = sh(['cargo', 'build', '--offline', '-q'], cwd=f'{V}/harness', env={'CARGO_TARGET_DIR': f'{TGT}/h'})
    return r.returncode, r.stderr


def expand(crate):
    os.makedirs(f'{BLD}/x', exist_ok=True)
    out = f'{BLD}/x/{crate}.rs'
    # RUSTC_BOOTSTRAP lets the stable compiler print the expanded source
    r = sh(['cargo', 'rustc', '--offline', '-q', '-p', PKG[crate], '--lib', '--', '-Zunpretty=expanded'], cwd=REPO,
           env={'RUSTC_BOOTSTRAP': '1', 'CARGO_TARGET_DIR': f'{TGT}/x', 'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'false'})
    if r.returncode or len(r.stdout) < 1000:
        raise Undecided(f'expanding {crate} failed: {r.stderr[-800:]}')
    open(out, 'w').write(r.stdout)


SMT_FAIL = ('postcondition not satisfied', 'precondition not satisfied', 'loop invariant not satisfied', 'invariant not satisfied',
            'possible arithmetic underflow/overflow', 'decreases not satisfied', 'assertion failed', 'assertion not satisfied',
            'loop ensures not satisfied', 'possible division by zero', 'possible array index', 'unreachable', 'could not prove termination',
            'recursive function', 'loop must have', 'not all trait', 'unable to prove', 'termination', 'index')
LIMIT = ('resource limit', 'rlimit', 'timed out', 'timeout')


def verus(unit, rs, marks, tier, rlimit, extra=()):
    """Run the verifier; returns dict(verified, errors, failures=[{...}], undecided=[...])"""
    t0 = time.time()
    cmd = ['verus', rs, '--crate-type', 'lib', '--output-json', '--time-expanded', '--multiple-errors', '6',
           '--rlimit', str(rlimit), '--num-threads', '8', *extra, '--', '--error-format=json']
    try:
        r = sh(cmd, timeout=700, cwd=BLD)
    except subprocess.TimeoutExpired:
        raise Undecided('the verifier did not finish in 700 s')
    res = dict(verified=0, errors=0, failures=[], undecided=[], wall=time.time() - t0, smt_ms=0, queries=[], cmd=' '.join(cmd))
    try:
        d = json.loads(r.stdout)
    except Exception:
        d = {}
    vr = d.get('verification-results') or {}
    res['verified'] = vr.get('verified', 0) or 0
    res['errors'] = vr.get('errors', 0) or 0
    smt = (d.get('times-ms') or {}).get('smt') or {}
    res['smt_ms'] = smt.get('smt-run', 0)
    for m in smt.get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            res['queries'].append((f.get('function'), f.get('time'), f.get('success')))
    src = open(rs).read().split('\n')
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except Exception:
            continue
        if m.get('level') != 'error' or m.get('message', '').startswith('aborting'):
            continue
        msg = m['message']
        spans = [s for s in m.get('spans', []) if s.get('file_name', '').endswith(os.path.basename(rs))]
        lines = [(s['line_start'], s.get('is_primary'), (s.get('label') or '')) for s in spans]
        fn = None
        for ln, _, _ in lines:
            fn = fn or fn_at(marks, ln)
        low = msg.lower()
        if any(k in low for k in LIMIT):
            res['undecided'].append(f'{fn}: {msg}')
            continue
        if not any(k in low for k in SMT_FAIL) or m.get('code'):
            where = src[lines[0][0] - 1].strip()[:160] if lines else ''
            res['undecided'].append(f'not accepted as input: {msg} | {where}')
            continue
        labels, clause, place = set(), None, None
        clause_fn = None
        # a clause named by the diagnostic: a failed postcondition or invariant carries its own labels
        for ln, prim, lab in lines:
            mk = clause_at(marks, ln)
            if mk:
                if mk['kind'] == 'requires':
                    clause = clause or mk['text']
                    place = place or f"precondition of {mk['fn']}"
                else:
                    clause, place = mk['text'], f"{mk['kind']} ({mk['place']}) of {mk['fn']}"
                    if mk['kind'] in ('ensures', 'invariant', 'invariant_except_break', 'decreases'):
                        labels |= set(mk['labels'])
        at = None
        for ln, prim, lab in lines:
            if not clause_at(marks, ln):
                at = fn_at(marks, ln)
                if at:
                    break
        body_fn = at or fn
        if not labels and ('decreases' in low or 'termination' in low):
            labels = {l for m in marks if m['kind'] == 'decreases' and m['fn'] == body_fn for l in m['labels']}
        if not labels:
            h = head_of(marks, body_fn)
            labels = set(h['labels']) if h else set()
        code = [src[ln - 1].strip()[:160] for ln, _, _ in lines]
        res['failures'].append(dict(message=msg, fn=body_fn, labels=sorted(labels), clause=clause, place=place, code=code))
    if 'verified' not in vr and not res['undecided'] and not res['failures']:
        res['undecided'].append('the verifier gave no result: ' + (r.stderr[-600:] or r.stdout[-300:]))
    return res


def fn_at(marks, ln):
    best = None
    for m in marks:
        if m['kind'] == 'fn' and m['first'] <= ln:
            best = m
        if m['kind'] == 'end' and best and m['fn'] == best['fn'] and m['first'] < ln and m['first'] >= best['first']:
            best = None
    return best['fn'] if best else None


def head_of(marks, fn):
    for m in marks:
        if m['kind'] == 'fn' and m['fn'] == fn:
            return m


def clause_at(marks, ln):
    for m in marks:
        if m['first'] <= ln <= m['last'] and m['kind'] in ('requires', 'ensures', 'invariant', 'invariant_except_break', 'decreases'):
            return m


def scan_trust(rs):
    t = open(rs).read()
    out = []
    for m in re.finditer(r'external_body\]\s*(?:pub )?(?:proof |exec )?(?:fn|struct)\s+(\w+)', t):
        out.append('external_body ' + m.group(1))
    for m in re.finditer(r'uninterp spec fn (\w+)', t):
        out.append('uninterpreted ' + m.group(1))
    for m in re.finditer(r'assume_specification[^\[]*\[([^\]]*)\]', t):
        out.append('assume_specification ' + m.group(1).strip())
    for m in re.finditer(r'\b(assume|admit)\s*\(', t):
        out.append('!! ' + m.group(1))
    if re.search(r'external_fn_specification|verifier::external\b', t):
        out.append('external items')
    return sorted(set(out))


def run_unit(unit, tier):
    u = UNITS[unit]
    for c in u['crates']:
        expand(c)
    rs, js = f'{BLD}/{unit}.rs', f'{BLD}/{unit}.json'
    r = sh([f'{TGT}/vx/debug/vx', f'{V}/spec/{unit}.spec', f'{BLD}/x', rs, js])
    if r.returncode:
        raise Undecided('extraction failed: ' + r.stderr[-800:])
    meta = json.load(open(js))
    res = verus(unit, rs, meta['marks'], tier, u.get('rlimit', 60) * (2 if tier == 'thorough' else 1))
    res['meta'] = meta
    res['trust'] = scan_trust(rs)
    # the anchors the contracts hang on, compared with those of the pinned tree
    drift = list(meta['lost'])
    base_f = f'{V}/spec/{unit}.anchors.json'
    shape = {k: v['loops'] for k, v in meta['functions'].items()}
    if os.environ.get('VX_WRITE_ANCHORS'):
        json.dump(shape, open(base_f, 'w'), indent=0, sort_keys=True)
    base = json.load(open(base_f)) if os.path.exists(base_f) else {}
    for k in shape:
        if k not in base:
            drift.append('new function ' + k)
        elif base[k] != shape[k]:
            drift.append('loops changed in ' + k)
    res['drift'] = drift
    bad = [t for t in res['trust'] if t.startswith('!!')]
    if bad:
        res['undecided'].append('unsound construct in the proof text: ' + ', '.join(bad))
    # vacuity: every function must be able to fail
    p = sh([f'{TGT}/vx/debug/vx', f'{V}/spec/{unit}.spec', f'{BLD}/x', f'{BLD}/{unit}_probe.rs', f'{BLD}/{unit}_probe.json', '--probe'])
    res['vacuous'] = None
    if p.returncode == 0 and not res['undecided'] and not res['failures']:
        pm = json.load(open(f'{BLD}/{unit}_probe.json'))
        pr = verus(unit, f'{BLD}/{unit}_probe.rs', pm['marks'], tier, 20)
        probed = {k for k, v in pm['functions'].items() if v.get('probed')}
        hit = {f['fn'] for f in pr['failures'] if 'assertion' in f['message']} | {x.split(':')[0] for x in pr['undecided']}
        res['vacuous'] = sorted(probed - hit)
        res['probed'] = len(probed)
        if any('not accepted' in x for x in pr['undecided']):
            res['vacuous'] = None
        elif res['vacuous']:
            res['undecided'].append('contracts that cannot fail: ' + ', '.join(res['vacuous']))
    return res


def inherits(meta, k, prop):
    """an impl of a trait method is proved against the contract of the trait"""
    m = re.match(r'([\w<>&, ]+)@.*::(\w+)$', k)
    t = m and f'{m.group(1)}::{m.group(2)}'
    return bool(t) and any(x['fn'] == t and x['kind'] == 'ensures' and prop in x['labels'] for x in meta['marks'])


def known_findings(prop):
    out = []
    p = f'{V}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def concrete(prop, tier, seed, secs=None):
    d = f'{BLD}/w/{prop}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rc, err = build_harness()
    if rc:
        return dict(error='the harness does not build: ' + err[-600:])
    r = sh([f'{TGT}/h/debug/vh', 'run', prop, tier, str(seed), d], timeout=800,
           **({'env': {'VH_SECS': str(secs)}} if secs else {}))
    try:
        return json.loads(r.stdout)
    except Exception:
        return dict(error='the harness gave no result: ' + (r.stderr or '')[-400:])


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        build_tools()
        rc, err = build_harness()
        sys.exit(err[-2000:] if rc else 0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BLD, exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    os.makedirs(f'{V}/replays', exist_ok=True)
    build_tools()
    units = [u for u in UNITS if prop in UNITS[u]['props']]
    results, undecided, failures = {}, [], []
    for u in units:
        try:
            r = run_unit(u, tier)
            results[u] = r
            also = {prop, *UNITS[u].get('also', {}).get(prop, [])}
            mine = [f for f in r['failures'] if also & set(f['labels'])]
            # no label at all: the obligation belongs to every property of the unit
            mine += [f for f in r['failures'] if not f['labels']]
            if mine and r['drift']:
                undecided.append(f'{u}: code moved away from its contracts ({"; ".join(r["drift"][:4])}); {len(mine)} obligations open')
                for f in mine[:6]:
                    undecided.append(f"  open: {f['message']} in {f['fn']}: {f['clause'] or f['code']}")
            else:
                failures += [dict(unit=u, **f) for f in mine]
            undecided += [f'{u}: {x}' for x in r['undecided']]
        except Undecided as e:
            undecided.append(f'{u}: {e}')
    c = concrete(prop, tier, seed)
    kf = known_findings(prop)
    cf = c.get('fails', [])
    new, known = [], []
    for f in cf:
        k = next((k for k in kf if k[0] in (f.get('text') or '') or k[0] == f.get('case')), None)
        (known if k else new).append(f)
    if failures and not new and tier == 'quick':
        # look harder for a failing input before reporting the obligation alone
        for s in (seed + 101, seed + 202):
            c2 = concrete(prop, 'thorough' if s == seed + 202 else 'quick', s, 90)
            more = [f for f in c2.get('fails', [])]
            if more:
                new = more
                break
    for k in kf:
        print(f'KNOWN-FINDING: property={prop} {k[1]}')

    clauses, stubs, fns = [], [], []
    for u, r in results.items():
        also = {prop, *UNITS[u].get('also', {}).get(prop, [])}
        for m in r['meta']['marks']:
            if m['kind'] in ('ensures', 'invariant', 'invariant_except_break', 'decreases') and (also & set(m['labels']) or not m['labels']):
                if not r['meta']['functions'].get(m['fn'], {}).get('stub'):
                    clauses.append(f"{m['fn']}: {m['kind']} {' '.join(m['text'].split())}")
        for k, f in r['meta']['functions'].items():
            if f['stub']:
                stubs.append(k)
            elif any(inherits(r['meta'], k, p) for p in also):
                fns.append(k)
            elif f['contract'] and (also & set(f['labels']) or any(m['fn'] == k and also & set(m['labels']) for m in r['meta']['marks'])):
                fns.append(k)
    proved = bool(units) and not undecided and not failures and all(r['verified'] > 0 and r['errors'] == 0 for r in results.values())
    verified = sum(r['verified'] for r in results.values())
    errors = sum(r['errors'] for r in results.values())
    level = 'proof' if units else 'other'
    cov = dict(
        obligations=verified + errors, discharged=verified,
        checker_cmd='; '.join(r['cmd'] for r in results.values()) or 'none',
        trusted_base=sorted({t for r in results.values() for t in r['trust']} | {'stub (contract assumed) ' + s for s in stubs}
                            | {'Verus 0.2026.09.13 and Z3', 'rustc macro expansion', 'vx extraction (rewrite rules in spec/*.spec)'}),
        proved=proved,
        functions_under_contract=fns, functions_under_contract_count=len(fns),
        clauses_of_this_property=clauses, clauses_count=len(clauses),
        solver_ms=sum(r['smt_ms'] for r in results.values()), back_end='Z3 through Verus',
        undischarged=undecided,
        failed_obligations=[f"{f['message']} in {f['fn']}: {f['clause'] or f['code']}" for f in failures],
        vacuity_probe={u: dict(probed=r.get('probed'), vacuous=r.get('vacuous')) for u, r in results.items()},
        dropped={u: r['meta']['drops'] for u, r in results.items()},
        rewrites={u: [x for x in r['meta']['rewrites'] if x['used']] for u, r in results.items()},
        bounded_stand_in=dict(
            note='bounded, never counted as proved: the property\'s executable oracle on the compiled crates',
            evaluations=c.get('evaluations'), distinct_nontrivial=c.get('nontrivial'), seed=seed, error=c.get('error')),
        samples=(c.get('samples') or [])[:4],
    )
    if level == 'other':
        cov['explanation'] = 'no contract: bounded only'
    viol = len(new) + (1 if failures and not new else 0)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=[a for u in units for a in ASSUMED.get(u, [])], wall_s=round(time.time() - t0, 1), violations=viol)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)

    for x in undecided[:12]:
        print('undischarged:', x)
    for f in failures[:12]:
        print('obligation failed:', f['message'], 'in', f['fn'], '|', f['place'], '|', (f['clause'] or ' '.join(f['code']))[:200])
    if c.get('error'):
        print('bounded stand-in:', c['error'])
    rc = 0
    if new:
        f = new[0]
        p = f'{V}/replays/{prop}.json'
        json.dump(dict(property=prop, text=f.get('text'), aux=f.get('aux', ''), message=f.get('message'), case=f.get('case'), seed=seed,
                       failed_obligations=failures[:6], replay=f'{TGT}/h/debug/vh replay {p}'), open(p, 'w'), indent=1, ensure_ascii=False)
        print('failing input:', json.dumps(f.get('text'), ensure_ascii=False)[:300], '--', str(f.get('message'))[:300])
        print(f'VIOLATION property={prop} replay={p}')
        rc = 1
    elif failures:
        p = f'{V}/replays/{prop}.json'
        json.dump(dict(property=prop, failed_obligations=failures, verifier=[r['cmd'] for r in results.values()]), open(p, 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={p} no-failing-input-found')
        rc = 1
    else:
        print(f'{prop}: held; {verified} queries discharged, {len(clauses)} clauses of this property in {len(fns)} functions; '
              f'bounded stand-in: {c.get("evaluations")} cases; {"proved" if proved else "NOT fully proved"}; {ev["wall_s"]} s')
    sys.exit(rc)


if __name__ == '__main__':
    main()

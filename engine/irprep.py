"""Turns clang's -O1 -disable-llvm-passes output into the IR the verifier reads.

What the extraction drops, mechanically and on every run:
  * bodies of std::string and of the exception-message helpers (trace_err, StrictException, operator+): they become
    nounwind external declarations; a thrown StrictException keeps its type and place, not its text;
  * everything not reachable from the harness functions.
Everything else is the code clang generated for /repo's headers, after inlining, SROA, early-CSE and CFG
simplification by opt."""
import re, subprocess, os

STRIP = re.compile(r'@(_ZNKSt7__cxx1112basic_string\w*|_ZNSt7__cxx1112basic_string\w*|_ZStplI\w*|_ZN3spp9trace_err\w*'
                   r'|_ZN3spp15StrictException[CD]\w*|_ZNSt7__cxx119to_string\w*|_ZSt\w*basic_string\w*'
                   r'|_ZN9__gnu_cxx\w*basic_string\w*|_ZNKSt9exception\w*|_ZNSt9exception\w*)\(')
LINK = {'linkonce_odr', 'weak_odr', 'internal', 'available_externally', 'private', 'weak'}


def strip_strings(text):
    out = []
    skip = False
    for l in text.split('\n'):
        if skip:
            if l == '}':
                skip = False
            continue
        if l.startswith('define') and STRIP.search(l):
            at = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
            d = 0
            j = at.end() - 1
            while True:
                c = l[j]
                if c == '(':
                    d += 1
                elif c == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            pre = ' '.join(w for w in l[len('define'):at.start()].split() if w not in LINK)
            out.append('declare %s %s nounwind' % (pre, l[at.start():j + 1]))
            skip = True
            continue
        if l.startswith('declare') and STRIP.search(l):
            l = re.sub(r'\)( (unnamed_addr|local_unnamed_addr))?( #\d+)?$', r') nounwind', l)
        out.append(l)
    return '\n'.join(out)


PASSES = ('internalize,globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),globaldce,'
          'function(sroa,early-cse<memssa>,simplifycfg,adce),cgscc(inline),globaldce,'
          'function(sroa,early-cse,simplifycfg,adce,loop-simplify,simplifycfg<no-keep-loops>,adce)')


def opt(src, dst, keep):
    keepf = dst + '.keep'
    with open(keepf, 'w') as f:
        f.write('\n'.join(keep) + '\n')
    subprocess.run(['opt-18', '-S', src, '-o', dst, '-passes=' + PASSES, '-internalize-public-api-file=' + keepf,
                    '-inline-threshold=100000000', '-inlinecold-threshold=100000000', '-inlinehint-threshold=100000000'],
                   check=True, stderr=subprocess.PIPE)
    os.unlink(keepf)

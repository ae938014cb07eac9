CONF['C16'] = [V(PLAIN, 4, 20)]
CONF['C17'] = [V(ASAN, 1, 20, cpu=120), V(PLAIN, 2, 20, name='fill', hflags='-O1 -g1 -w -DVH_MEM'), V(VALG, 0.1, 1, cpu=300, flags='-O0 -DNDEBUG -g1 -w', hflags='-O1 -g1 -w -DVH_VALGRIND')]
CONF['C18'] = [V(TSAN, 1, 10, cpu=240, par=4, hflags='-O1 -g1 -w -fsanitize=thread'), V(PLAIN, 2, 20, par=4, cpu=60)]
CONF['C19'] = [V(PLAIN, 3, 3, cpu=60), V(ASAN, 1, 2, cpu=300)]
CONF['C20'] = [V(PLAIN, 8, 20)]

def r_strings(text):
    """the string literals of an R file"""
    out = []; i = 0
    while i < len(text):
        ch = text[i]
        if ch == '#':
            while i < len(text) and text[i] != '\n': i += 1
        elif ch in '\'"':
            q = ch; i += 1; s = []
            while i < len(text) and text[i] != q:
                if text[i] == '\\' and i + 1 < len(text):
                    i += 1; s.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(text[i], text[i]))
                else: s.append(text[i])
                i += 1
            i += 1; out.append(''.join(s))
        else: i += 1
    return out

def pre_r(prop, var, d):
    """extract the C++ source the R file hands to sourceCpp, and lay the headers out as installed"""
    src = [s for s in r_strings(open(REPO + '/R/lpaggreg.R').read()) if 'Rcpp::export' in s]
    if len(src) != 1:
        raise BuildError('expected one C++ source in R/lpaggreg.R, found %d' % len(src))
    # entry points are called through overload-neutral arguments, so their parameters may be taken as any type R code converts to
    open(d + '/rbridge.cpp', 'w').write(src[0] + '''
namespace bridge {
RObj o(const RObj&m, const RObj&t){ return ::oaggregate(rshim::Arg(m), rshim::Arg(t)); }
RObj h(const RObj&m, const RObj&h, const RObj&t){ return ::haggregate(rshim::Arg(m), rshim::Arg(h), rshim::Arg(t)); }
RObj d(const RObj&m, const RObj&h, const RObj&t){ return ::daggregate(rshim::Arg(m), rshim::Arg(h), rshim::Arg(t)); }
}
''')
    os.makedirs(d + '/inc', exist_ok=True)
    if not os.path.exists(d + '/inc/lpaggreg'): os.symlink(SRC + '/headers', d + '/inc/lpaggreg')
    var['extra_src'] = [(d + '/rbridge.cpp', '-std=c++11 -O1 -g1 -w -I%s/harness/rshim -I%s/inc' % (VERIF, d))]
    return []

CONF['C21'] = [V(PLAIN, 4, 20, pre=pre_r)]

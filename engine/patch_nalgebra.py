"""Generate the patched nalgebra: decompositions of square systems go to the __verif_la hook."""
import os, re, shutil, sys, glob

HEAD = '''
extern "C-unwind" {
    fn __verif_la_mode() -> u32;
    fn __verif_la(kind: u32, n: usize, a: *const f64, b: *const f64, x: *mut f64) -> bool;
}
pub(crate) fn verif_hook<T>(n: usize, m: usize) -> bool {
    n == m && n >= 4 && std::mem::size_of::<T>() == 8 && unsafe { __verif_la_mode() } != 0
}
pub(crate) fn verif_solve<T>(kind: u32, n: usize, a: *const T, b: *const T, x: *mut T) -> bool {
    unsafe { __verif_la(kind, n, a as *const f64, b as *const f64, x as *mut f64) }
}
'''

def sub(s, old, new, count=1):
    if s.count(old) < 1:
        raise SystemExit('nalgebra patch: pattern not found: ' + old)
    return s.replace(old, new, count)

def main(dst):
    src = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/nalgebra-0.31.4')))[0]
    tmp = dst + '.tmp'
    if os.path.exists(tmp):
        shutil.rmtree(tmp)
    shutil.copytree(src, tmp)
    L = tmp + '/src/linalg/'
    def edit(fn, f):
        s = open(L + fn).read()
        s = f(s)
        open(L + fn, 'w').write(s)
    edit('mod.rs', lambda s: s + HEAD)
    p = tmp + "/src/lib.rs"
    s = open(p).read()
    s = re.sub(r"#!\[deny\(", "#![allow(", s)
    s = re.sub(r"(?s)#!\[deny\(", "#![allow(", s)
    open(p, "w").write(s)

    solve_mut_body = '''
        if super::verif_hook::<T>(self.%(f)s.nrows(), self.%(f)s.ncols()) && b.ncols() == 1 {
            let n = b.nrows();
            let mut v: Vec<T> = (0..n).map(|i| b[(i, 0)].clone()).collect();
            let mut w: Vec<T> = v.clone();
            let a: Vec<T> = self.%(f)s.iter().cloned().collect();
            let ok = super::verif_solve(%(k)d, n, a.as_ptr(), v.as_ptr(), w.as_mut_ptr());
            for i in 0..n {
                b[(i, 0)] = w[i].clone();
            }
            v.clear();
            return ok;
        }
'''
    def hook_solve_mut(s, field, kind):
        i = s.index('pub fn solve_mut<')
        j = s.index('{\n', s.index('where', i)) + 2
        return s[:j] + solve_mut_body % {'f': field, 'k': kind} + s[j:]

    def lu(s):
        s = sub(s, 'return LU { lu: matrix, p };\n        }\n',
                'return LU { lu: matrix, p };\n        }\n        if super::verif_hook::<T>(matrix.nrows(), matrix.ncols()) {\n            return LU { lu: matrix, p };\n        }\n')
        return hook_solve_mut(s, 'lu', 1)
    edit('lu.rs', lu)

    def qr(s):
        s = sub(s, '        let mut diag = Matrix::uninit(min_nrows_ncols, Const::<1>);\n',
                '        if super::verif_hook::<T>(matrix.nrows(), matrix.ncols()) {\n            return QR { qr: matrix, diag: Matrix::zeros_generic(min_nrows_ncols, Const::<1>) };\n        }\n        let mut diag = Matrix::uninit(min_nrows_ncols, Const::<1>);\n')
        return hook_solve_mut(s, 'qr', 2)
    edit('qr.rs', qr)

    def flu(s):
        m = re.search(r'return Self \{\n\s*lu: matrix,\n\s*p,\n\s*q,\n\s*\};\n\s*\}\n|return Self \{ lu: matrix, p, q \};\n\s*\}\n', s)
        if not m:
            raise SystemExit('full_piv_lu pattern')
        s = s[:m.end()] + '        if super::verif_hook::<T>(matrix.nrows(), matrix.ncols()) {\n            return Self { lu: matrix, p, q };\n        }\n' + s[m.end():]
        return hook_solve_mut(s, 'lu', 4)
    edit('full_piv_lu.rs', flu)

    def svd(s):
        s = sub(s, '        if Self::use_special_always_ordered_svd2() {',
                '''        if super::verif_hook::<T>(matrix.nrows(), matrix.ncols()) && compute_u && compute_v {
            let mut u: OMatrix<T, R, DimMinimum<R, C>> = Matrix::zeros_generic(nrows, min_nrows_ncols);
            let v: OMatrix<T, DimMinimum<R, C>, C> = Matrix::zeros_generic(min_nrows_ncols, ncols);
            for j in 0..matrix.ncols() {
                for i in 0..matrix.nrows() {
                    u[(i, j)] = matrix[(i, j)].clone();
                }
            }
            return Some(Self { u: Some(u), v_t: Some(v), singular_values: Matrix::zeros_generic(min_nrows_ncols, crate::Const::<1>) });
        }
        if Self::use_special_always_ordered_svd2() {''')
        i = s.index('                (Some(u), Some(v_t)) => {\n                    let mut ut_b')
        j = s.index('{\n', i) + 2
        s = s[:j] + '''                    if super::verif_hook::<T>(u.nrows(), u.ncols()) && b.ncols() == 1 {
                        let n = b.nrows();
                        let v: Vec<T> = (0..n).map(|i| b[(i, 0)].clone()).collect();
                        let mut w: Vec<T> = v.clone();
                        let a: Vec<T> = u.iter().cloned().collect();
                        if !super::verif_solve(3, n, a.as_ptr(), v.as_ptr(), w.as_mut_ptr()) {
                            return Err("SVD solve: verification stub failed.");
                        }
                        let mut out: OMatrix<T, C, C2> = Matrix::zeros_generic(v_t.shape_generic().1, b.shape_generic().1);
                        for i in 0..n {
                            out[(i, 0)] = w[i].clone();
                        }
                        return Ok(out);
                    }
''' + s[j:]
        return s
    edit('svd.rs', svd)
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.rename(tmp, dst)

if __name__ == '__main__':
    main(sys.argv[1])

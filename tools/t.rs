//! A small TIFF writer for demonstrations.
#![allow(dead_code)]
#[derive(Clone, Default)]
pub struct D {
    pub ents: Vec<(u16, u16, u32, Vec<u8>)>,
    /// (offset tag, length tag or 0, bytes)
    pub blobs: Vec<(u16, u16, Vec<u8>)>,
    /// (pointer tag, directories)
    pub subs: Vec<(u16, Vec<D>)>,
    /// maker note: header, directory, offsets from the header's start
    pub mnote: Option<(Vec<u8>, Box<D>, bool)>,
}
#[derive(Clone, Copy)]
pub struct T(pub bool); // little endian
impl T {
    pub fn u16(&self, v: u16) -> Vec<u8> { if self.0 { v.to_le_bytes().to_vec() } else { v.to_be_bytes().to_vec() } }
    pub fn u32(&self, v: u32) -> Vec<u8> { if self.0 { v.to_le_bytes().to_vec() } else { v.to_be_bytes().to_vec() } }
    pub fn short(&self, tag: u16, v: &[u16]) -> (u16, u16, u32, Vec<u8>) { (tag, 3, v.len() as u32, v.iter().flat_map(|v| self.u16(*v)).collect()) }
    pub fn long(&self, tag: u16, v: &[u32]) -> (u16, u16, u32, Vec<u8>) { (tag, 4, v.len() as u32, v.iter().flat_map(|v| self.u32(*v)).collect()) }
    pub fn rat(&self, tag: u16, typ: u16, v: &[(i32, i32)]) -> (u16, u16, u32, Vec<u8>) {
        (tag, typ, v.len() as u32, v.iter().flat_map(|v| [self.u32(v.0 as u32), self.u32(v.1 as u32)].concat()).collect())
    }
    pub fn text(&self, tag: u16, s: &str) -> (u16, u16, u32, Vec<u8>) { let mut v = s.as_bytes().to_vec(); v.push(0); (tag, 2, v.len() as u32, v) }
    pub fn bytes(&self, tag: u16, typ: u16, v: &[u8]) -> (u16, u16, u32, Vec<u8>) { (tag, typ, v.len() as u32, v.to_vec()) }
    pub fn file(&self, dirs: &[D]) -> Vec<u8> { self.file_with(if self.0 { b"II\x2a\0" } else { b"MM\0\x2a" }, dirs) }
    pub fn file_with(&self, magic: &[u8; 4], dirs: &[D]) -> Vec<u8> {
        let mut f = magic.to_vec();
        f.extend(self.u32(8));
        self.chain(&mut f, dirs, 0);
        f
    }
    fn chain(&self, f: &mut Vec<u8>, dirs: &[D], base: usize) {
        for (i, d) in dirs.iter().enumerate() {
            let next = self.dir(f, d, base);
            if i + 1 < dirs.len() {
                if f.len() % 2 == 1 { f.push(0); }
                let p = self.u32((f.len() - base) as u32);
                f[next..next + 4].copy_from_slice(&p);
            }
        }
    }
    /// Writes a directory at the end; gives where its link to the next is.
    fn dir(&self, f: &mut Vec<u8>, d: &D, base: usize) -> usize {
        let mut e = d.ents.clone();
        for (o, l, b) in &d.blobs {
            e.push(self.long(*o, &[0]));
            if *l != 0 { e.push(self.long(*l, &[b.len() as u32])); }
        }
        for (t, v) in &d.subs { e.push(self.long(*t, &vec![0; v.len()])); }
        if let Some(m) = &d.mnote { e.push((0x927c, 7, 1000, m.0.clone())); }
        e.sort_by_key(|e| e.0);
        f.extend(self.u16(e.len() as u16));
        let at = f.len();
        f.extend(vec![0; 12 * e.len() + 4]);
        for (i, (tag, typ, count, data)) in e.iter().enumerate() {
            let p = at + 12 * i;
            f[p..p + 2].copy_from_slice(&self.u16(*tag));
            f[p + 2..p + 4].copy_from_slice(&self.u16(*typ));
            f[p + 4..p + 8].copy_from_slice(&self.u32(*count));
            let mut v = p + 8;
            if let (Some(m), 0x927c) = (&d.mnote, *tag) {
                let start = f.len();
                f[v..v + 4].copy_from_slice(&self.u32((start - base) as u32));
                f.extend(&m.0);
                self.dir(f, &m.1, if m.2 { start } else { base });
                f.extend([0; 32]);
                let n = self.u32((f.len() - start) as u32);
                f[p + 4..p + 8].copy_from_slice(&n);
                continue;
            }
            if data.len() <= 4 { f[v..v + data.len()].copy_from_slice(data); }
            else {
                let o = self.u32((f.len() - base) as u32);
                f[v..v + 4].copy_from_slice(&o);
                v = f.len();
                f.extend(data);
            }
            if let Some((_, _, b)) = d.blobs.iter().find(|b| b.0 == *tag) {
                let o = self.u32((f.len() - base) as u32);
                f[v..v + 4].copy_from_slice(&o);
                f.extend(b);
            }
            if let Some((_, s)) = d.subs.iter().find(|s| s.0 == *tag) {
                for (k, d) in s.iter().enumerate() {
                    if f.len() % 2 == 1 { f.push(0); }
                    let o = self.u32((f.len() - base) as u32);
                    f[v + 4 * k..v + 4 * k + 4].copy_from_slice(&o);
                    self.dir(f, d, base);
                }
            }
        }
        at + 12 * e.len()
    }
}

//! A TIFF writer that can put everything anywhere.

use crate::gen::G;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Order {
    Le,
    Be,
}

thread_local! {
    /// The size of a gap to leave somewhere, if any.
    static WIDE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    /// No files of many megabytes.
    static SMALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Leave a gap of about 8 KiB in each file made meanwhile.
pub fn spread<T>(g: &mut G, f: impl FnOnce(&mut G) -> T) -> T {
    let n = 8192 - 2 * g.ur(0, 100) as u32;
    WIDE.with(|x| x.set(n));
    let r = f(g);
    WIDE.with(|x| x.set(0));
    r
}

/// Make no file of many megabytes meanwhile.
pub fn small<T>(g: &mut G, f: impl FnOnce(&mut G) -> T) -> T {
    let was = SMALL.with(|x| x.replace(true));
    let r = f(g);
    SMALL.with(|x| x.set(was));
    r
}

impl Order {
    pub fn u16(self, v: u16) -> [u8; 2] {
        match self {
            Order::Le => v.to_le_bytes(),
            Order::Be => v.to_be_bytes(),
        }
    }
    pub fn u32(self, v: u32) -> [u8; 4] {
        match self {
            Order::Le => v.to_le_bytes(),
            Order::Be => v.to_be_bytes(),
        }
    }
    pub fn read16(self, b: &[u8]) -> u16 {
        let b = [b[0], b[1]];
        match self {
            Order::Le => u16::from_le_bytes(b),
            Order::Be => u16::from_be_bytes(b),
        }
    }
    pub fn read32(self, b: &[u8]) -> u32 {
        let b = [b[0], b[1], b[2], b[3]];
        match self {
            Order::Le => u32::from_le_bytes(b),
            Order::Be => u32::from_be_bytes(b),
        }
    }
    pub fn u64(self, v: u64) -> [u8; 8] {
        match self {
            Order::Le => v.to_le_bytes(),
            Order::Be => v.to_be_bytes(),
        }
    }
}

pub type Id = usize;

/// In lists of pointers: to nothing, and past the end of the file.
pub const NOWHERE: Id = usize::MAX;
pub const BEYOND: Id = usize::MAX - 1;

pub fn place(off: &[u32], i: Id) -> u32 {
    match i {
        BEYOND => 0xffff_fff0,
        _ => off.get(i).copied().unwrap_or(0),
    }
}

/// A list of pointers, with now and then one that leads nowhere.
pub fn holes(g: &mut G, mut ids: Vec<Id>) -> Vec<Id> {
    if g.chance(1, 4) {
        let at = g.idx(ids.len() + 1);
        let x = g.pickv(&[NOWHERE, BEYOND]);
        ids.insert(at, x);
    }
    ids
}


#[derive(Clone, Debug)]
pub enum V {
    U8(Vec<u8>),
    /// Bytes as stored (the NUL included if there is one)
    A(Vec<u8>),
    U16(Vec<u16>),
    U32(Vec<u32>),
    R(Vec<(u32, u32)>),
    I8(Vec<i8>),
    X(Vec<u8>),
    I16(Vec<i16>),
    I32(Vec<i32>),
    SR(Vec<(i32, i32)>),
    F(Vec<f32>),
    D(Vec<f64>),
    /// LONG offsets of nodes, plus a constant
    Ptr(Vec<Id>),
    PtrAdd(Id, i64),
    /// LONG offset of the first node counted from that far into the second
    PtrRel(Id, Id, u32),
    /// The same as an entry of type IFD, counted from the file if there is no second
    PtrIfd(Id, Option<(Id, u32)>),
    /// UNDEFINED of that many bytes at the first node, counted from that far into the second
    PtrUnd(Id, Id, u32, u32),
    /// LONG sizes of nodes
    Len(Vec<Id>),
    /// UNDEFINED whose bytes are the node
    Note(Id),
    /// (type, bytes in file order, count): for what the other variants cannot say
    Raw(u16, Vec<u8>, u32),
}

pub fn s(x: &str) -> V {
    let mut v = x.as_bytes().to_vec();
    v.push(0);
    V::A(v)
}

impl V {
    pub fn type_(&self) -> u16 {
        match self {
            V::U8(_) => 1,
            V::A(_) => 2,
            V::U16(_) => 3,
            V::U32(_) | V::Ptr(_) | V::PtrAdd(..) | V::PtrRel(..) | V::Len(_) => 4,
            V::R(_) => 5,
            V::I8(_) => 6,
            V::X(_) | V::Note(_) | V::PtrUnd(..) => 7,
            V::I16(_) => 8,
            V::I32(_) => 9,
            V::SR(_) => 10,
            V::F(_) => 11,
            V::D(_) => 12,
            V::PtrIfd(..) => 13,
            V::Raw(t, _, _) => *t,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Base {
    /// Offsets count from the start of the TIFF
    File,
    /// Offsets count from this far into the node
    Node(u32),
    /// Offsets count from this far into that node
    At(Id, u32),
}

#[derive(Clone, Debug)]
pub struct DirSpec {
    pub entries: Vec<(u16, V)>,
    pub next: Option<Id>,
    /// What comes before the count of entries (maker note headers)
    pub prefix: Vec<u8>,
    pub base: Base,
    /// Values that do not fit follow the directory, in the same node
    pub contained: bool,
    /// Byte order of this directory if not that of the file
    pub order: Option<Order>,
    /// Filler after the directory (so a detector that reads ahead finds bytes)
    pub tail: usize,
}

#[derive(Clone, Debug)]
pub enum Node {
    Blob(Vec<u8>),
    Dir(DirSpec),
}

#[derive(Clone, Debug)]
pub struct Tiff {
    pub order: Order,
    pub header: Vec<u8>,
    /// (position in header, node): LONG offsets
    pub patches: Vec<(usize, Id)>,
    pub nodes: Vec<Node>,
    /// Nodes to be placed right after one another, in this order
    pub runs: Vec<Vec<Id>>,
    /// Keep everything in node order without gaps
    pub compact: bool,
    /// Bytes after the end of everything
    pub trail: usize,
    /// What fills the rest of a value held inline
    pub pad: u8,
    /// Offsets may take more than 16, or 24 bits.
    pub roomy: bool,
    /// Entries in the order they were added, not by tag
    pub unsorted: bool,
    /// The node that comes after all others
    pub last: Option<Id>,
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub off: Vec<u32>,
    pub size: Vec<u32>,
    /// Where the structure is: positions worth damaging
    pub spots: Vec<usize>,
}

impl Tiff {
    pub fn new(order: Order) -> Tiff {
        let mut header = match order {
            Order::Le => b"II".to_vec(),
            Order::Be => b"MM".to_vec(),
        };
        header.extend_from_slice(&order.u16(42));
        header.extend_from_slice(&[0; 4]);
        Tiff {
            order,
            header,
            patches: vec![],
            nodes: vec![],
            runs: vec![],
            compact: false,
            trail: 0,
            pad: 0,
            roomy: false,
            unsorted: false,
            last: None,
        }
    }
    pub fn blob(&mut self, b: Vec<u8>) -> Id {
        self.nodes.push(Node::Blob(b));
        self.nodes.len() - 1
    }
    pub fn dir(&mut self) -> Id {
        self.nodes.push(Node::Dir(DirSpec {
            entries: vec![],
            next: None,
            prefix: vec![],
            base: Base::File,
            contained: false,
            order: None,
            tail: 0,
        }));
        self.nodes.len() - 1
    }
    pub fn first(&mut self, d: Id) {
        self.patches.push((4, d));
    }
    pub fn d(&mut self, id: Id) -> &mut DirSpec {
        match &mut self.nodes[id] {
            Node::Dir(d) => d,
            _ => panic!("not a dir"),
        }
    }
    pub fn add(&mut self, id: Id, tag: u16, v: V) {
        self.d(id).entries.push((tag, v));
    }
    pub fn next(&mut self, a: Id, b: Id) {
        self.d(a).next = Some(b);
    }

    fn enc(&self, o: Order, v: &V, off: &[u32], size: &[u32]) -> (u32, Vec<u8>) {
        let mut b = vec![];
        let n;
        match v {
            V::U8(x) | V::A(x) | V::X(x) => {
                n = x.len();
                b.extend_from_slice(x);
            }
            V::I8(x) => {
                n = x.len();
                b.extend(x.iter().map(|v| *v as u8));
            }
            V::U16(x) => {
                n = x.len();
                x.iter().for_each(|v| b.extend_from_slice(&o.u16(*v)));
            }
            V::I16(x) => {
                n = x.len();
                x.iter().for_each(|v| b.extend_from_slice(&o.u16(*v as u16)));
            }
            V::U32(x) => {
                n = x.len();
                x.iter().for_each(|v| b.extend_from_slice(&o.u32(*v)));
            }
            V::I32(x) => {
                n = x.len();
                x.iter().for_each(|v| b.extend_from_slice(&o.u32(*v as u32)));
            }
            V::R(x) => {
                n = x.len();
                x.iter().for_each(|v| {
                    b.extend_from_slice(&o.u32(v.0));
                    b.extend_from_slice(&o.u32(v.1));
                });
            }
            V::SR(x) => {
                n = x.len();
                x.iter().for_each(|v| {
                    b.extend_from_slice(&o.u32(v.0 as u32));
                    b.extend_from_slice(&o.u32(v.1 as u32));
                });
            }
            V::F(x) => {
                n = x.len();
                x.iter().for_each(|v| b.extend_from_slice(&o.u32(v.to_bits())));
            }
            V::D(x) => {
                n = x.len();
                x.iter().for_each(|v| b.extend_from_slice(&o.u64(v.to_bits())));
            }
            V::Ptr(x) => {
                n = x.len();
                x.iter()
                    .for_each(|i| b.extend_from_slice(&o.u32(place(off, *i))));
            }
            V::PtrAdd(i, k) => {
                n = 1;
                let v = off.get(*i).copied().unwrap_or(0) as i64 + k;
                b.extend_from_slice(&o.u32(v as u32));
            }
            V::PtrRel(a, c, k) => {
                n = 1;
                let at = |i: &Id| off.get(*i).copied().unwrap_or(0);
                b.extend_from_slice(&o.u32(at(a).wrapping_sub(at(c)).wrapping_sub(*k)));
            }
            V::Len(x) => {
                n = x.len();
                x.iter()
                    .for_each(|i| b.extend_from_slice(&o.u32(size.get(*i).copied().unwrap_or(0))));
            }
            V::Note(i) => {
                n = size.get(*i).copied().unwrap_or(8) as usize;
                // out of line by construction
            }
            V::PtrIfd(a, c) => {
                n = 1;
                let at = |i: &Id| off.get(*i).copied().unwrap_or(0);
                let base = c.map(|(c, k)| at(&c) + k).unwrap_or(0);
                b.extend_from_slice(&o.u32(at(a).wrapping_sub(base)));
            }
            V::PtrUnd(a, c, k, len) => {
                n = *len as usize;
                let at = |i: &Id| off.get(*i).copied().unwrap_or(0);
                b.extend_from_slice(&o.u32(at(a).wrapping_sub(at(c)).wrapping_sub(*k)));
            }
            V::Raw(_, bytes, c) => {
                n = *c as usize;
                b.extend_from_slice(bytes);
            }
        }
        (n as u32, b)
    }

    /// Size of a dir's own record, without values.
    fn rec(d: &DirSpec) -> usize {
        d.prefix.len() + 2 + 12 * d.entries.len() + 4 + d.tail
    }

    pub fn build(&self, g: &mut G) -> Built {
        let n = self.nodes.len();
        let mut size = vec![0_u32; n];
        for (i, node) in self.nodes.iter().enumerate() {
            size[i] = match node {
                Node::Blob(b) => b.len() as u32,
                Node::Dir(d) => {
                    let mut t = Self::rec(d);
                    if d.contained {
                        let o = d.order.unwrap_or(self.order);
                        for (_, v) in &d.entries {
                            if matches!(v, V::Note(_)) {
                                continue;
                            }
                            let l = self.enc(o, v, &[], &[]).1.len();
                            if l > 4 {
                                t += l + (l & 1);
                            }
                        }
                    }
                    t as u32
                }
            };
        }
        // Chunks: nodes, and values out of line of dirs that are not contained.
        #[derive(Clone, Copy)]
        enum C {
            Node(usize),
            Val(usize, usize, usize),
        }
        let mut in_run = vec![false; n];
        for r in &self.runs {
            for i in r.iter().skip(1) {
                in_run[*i] = true;
            }
        }
        let mut chunks = vec![];
        for (i, node) in self.nodes.iter().enumerate() {
            if !in_run[i] {
                chunks.push(C::Node(i));
            }
            if let Node::Dir(d) = node {
                if !d.contained {
                    let o = d.order.unwrap_or(self.order);
                    for (j, (_, v)) in d.entries.iter().enumerate() {
                        if matches!(v, V::Note(_)) {
                            continue;
                        }
                        let l = self.enc(o, v, &[], &[]).1.len();
                        if l > 4 {
                            chunks.push(C::Val(i, j, l));
                        }
                    }
                }
            }
        }
        let mut order: Vec<usize> = if self.compact || !g.chance(3, 4) {
            (0..chunks.len()).collect()
        } else {
            g.perm(chunks.len())
        };
        if let Some(l) = self.last {
            if let Some(k) = order.iter().position(|i| matches!(chunks[*i], C::Node(k) if k == l)) {
                let i = order.remove(k);
                order.push(i);
            }
        }
        let gaps = !self.compact && g.chance(1, 2);
        let mut wide = if self.compact { 0 } else { WIDE.with(|x| x.get()) };
        if self.roomy && !self.compact && wide == 0 {
            if g.chance(1, 200) {
                wide = 2 * g.u32r(30000, 70000);
                g.label("offsets past 64 KiB");
            } else if !SMALL.with(|x| x.get()) && g.chance(1, 6000) {
                wide = 2 * g.u32r(0x7f_8000, 0x80_8000);
                g.label("offsets past 16 MiB");
            }
        }
        let mut off = vec![0_u32; n];
        let mut val_off = std::collections::HashMap::new();
        let mut pos = self.header.len() as u32;
        for i in order {
            if pos & 1 == 1 {
                pos += 1;
            }
            if gaps {
                pos += 2 * g.below(6) as u32;
            }
            if wide > 0 && g.chance(1, 4) {
                pos += wide;
                wide = 0;
            }
            match chunks[i] {
                C::Node(k) => {
                    off[k] = pos;
                    pos += size[k];
                    for r in &self.runs {
                        if r[0] == k {
                            for x in &r[1..] {
                                off[*x] = pos;
                                pos += size[*x];
                            }
                        }
                    }
                }
                C::Val(a, b, l) => {
                    val_off.insert((a, b), pos);
                    pos += l as u32;
                }
            }
        }
        let fill = if gaps { 0xa5 } else { 0 };
        // Nothing needs to follow the last byte, but what looks for the kind of a maker note
        // expects to find some more.
        let safe = off.iter().all(|o| *o + 24 <= pos);
        let trail = if safe && self.trail > 0 && g.chance(1, 3) { 0 } else { self.trail };
        let mut out = vec![fill; pos as usize + trail];
        out[..self.header.len()].copy_from_slice(&self.header);
        for (p, i) in &self.patches {
            out[*p..*p + 4].copy_from_slice(&self.order.u32(off[*i]));
        }
        for (i, node) in self.nodes.iter().enumerate() {
            let at = off[i] as usize;
            match node {
                Node::Blob(b) => out[at..at + b.len()].copy_from_slice(b),
                Node::Dir(d) => {
                    let o = d.order.unwrap_or(self.order);
                    let mut rec = d.prefix.clone();
                    let base = match d.base {
                        Base::File => 0,
                        Base::Node(k) => off[i] + k,
                        Base::At(n, k) => off[n] + k,
                    };
                    rec.extend_from_slice(&o.u16(d.entries.len() as u16));
                    let mut spill_at = Self::rec(d);
                    let mut spill = vec![];
                    // TIFF wants entries sorted by tag
                    let mut idx: Vec<usize> = (0..d.entries.len()).collect();
                    if !self.unsorted {
                        idx.sort_by_key(|k| d.entries[*k].0);
                    }
                    for j in idx {
                        let (tag, v) = &d.entries[j];
                        let (count, bytes) = self.enc(o, v, &off, &size);
                        rec.extend_from_slice(&o.u16(*tag));
                        rec.extend_from_slice(&o.u16(v.type_()));
                        rec.extend_from_slice(&o.u32(count));
                        if let V::Note(k) = v {
                            rec.extend_from_slice(&o.u32(off[*k].wrapping_sub(base)));
                        } else if bytes.len() <= 4 {
                            let mut b = bytes.clone();
                            b.resize(4, self.pad);
                            rec.extend_from_slice(&b);
                        } else if d.contained {
                            rec.extend_from_slice(&o.u32((at + spill_at) as u32 - base));
                            spill_at += bytes.len() + (bytes.len() & 1);
                            spill.extend_from_slice(&bytes);
                            if bytes.len() & 1 == 1 {
                                spill.push(0);
                            }
                        } else {
                            let p = val_off[&(i, j)];
                            rec.extend_from_slice(&o.u32(p.wrapping_sub(base)));
                            out[p as usize..p as usize + bytes.len()].copy_from_slice(&bytes);
                        }
                    }
                    let next = d.next.map(|k| off[k]).unwrap_or(0);
                    rec.extend_from_slice(&o.u32(next));
                    rec.resize(Self::rec(d), 0);
                    rec.extend_from_slice(&spill);
                    out[at..at + rec.len()].copy_from_slice(&rec);
                }
            }
        }
        let mut spots = vec![0, 2, 4];
        for (i, node) in self.nodes.iter().enumerate() {
            if let Node::Dir(d) = node {
                let at = off[i] as usize + d.prefix.len();
                spots.push(at);
                for k in 0..d.entries.len() {
                    let e = at + 2 + 12 * k;
                    spots.extend([e, e + 2, e + 4, e + 8]);
                }
                spots.push(at + 2 + 12 * d.entries.len());
            }
        }
        Built {
            bytes: out,
            off,
            size,
            spots,
        }
    }
}

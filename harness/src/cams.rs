//! The cameras and matrices the library knew when `tools/mkcams.py` was last run.

use std::collections::HashMap;
use std::sync::OnceLock;

pub type Tid = (u16, u16);

pub struct Matrix {
    pub fmt: &'static str,
    pub id: Tid,
    pub black: u16,
    pub white: u16,
    pub m: Vec<i32>,
}

pub struct Cams {
    pub models: Vec<(&'static str, &'static str, Tid)>,
    pub ids: Vec<(&'static str, u32, Tid)>,
    pub matrices: Vec<Matrix>,
    first: HashMap<(&'static str, Tid), usize>,
}

pub fn cams() -> &'static Cams {
    static C: OnceLock<Cams> = OnceLock::new();
    C.get_or_init(|| {
        let mut c = Cams {
            models: vec![],
            ids: vec![],
            matrices: vec![],
            first: HashMap::new(),
        };
        for l in include_str!("../data/cams.txt").lines() {
            let f: Vec<&'static str> = l.split('\t').collect();
            let id = (f[3].parse().unwrap(), f[4].parse().unwrap());
            match f[0] {
                "model" => c.models.push((f[1], f[2], id)),
                "modelid" => c.ids.push((f[1], f[2].parse().unwrap(), id)),
                _ => {
                    let i = c.matrices.len();
                    c.first.entry((f[1], id)).or_insert(i);
                    c.matrices.push(Matrix {
                        fmt: f[1],
                        id,
                        black: f[5].parse().unwrap(),
                        white: f[6].parse().unwrap(),
                        m: f[7].split(',').map(|v| v.parse().unwrap()).collect(),
                    });
                }
            }
        }
        c
    })
}

impl Cams {
    pub fn matrix(&self, fmt: &'static str, id: Tid) -> Option<&Matrix> {
        self.first.get(&(fmt, id)).map(|i| &self.matrices[*i])
    }
    pub fn models(&self, fmt: &str) -> Vec<(&'static str, Tid)> {
        self.models.iter().filter(|m| m.0 == fmt).map(|m| (m.1, m.2)).collect()
    }
    pub fn ids(&self, fmt: &str) -> Vec<(u32, Tid)> {
        self.ids.iter().filter(|m| m.0 == fmt).map(|m| (m.1, m.2)).collect()
    }
}

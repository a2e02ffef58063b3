//! Parser for the contract files. Format: blocks starting with a line `== <key>`; inside a block a
//! section is a line at column 0 of the form `name:` or `name: value`, followed by indented lines.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub key: String,
    pub sections: BTreeMap<String, String>,
}

impl Block {
    pub fn get(&self, s: &str) -> Option<&str> {
        self.sections.get(s).map(|x| x.as_str())
    }
}

#[derive(Clone, Default, Debug)]
pub struct Contracts {
    pub blocks: BTreeMap<String, Block>,
}

pub fn norm_key(k: &str) -> String {
    k.split_whitespace().collect::<Vec<_>>().join(" ")
}

impl Contracts {
    pub fn parse(&mut self, text: &str, file: &str) {
        let mut cur: Option<Block> = None;
        let mut sec: Option<String> = None;
        for (ln, line) in text.lines().enumerate() {
            if let Some(k) = line.strip_prefix("== ") {
                if let Some(b) = cur.take() {
                    self.insert(b);
                }
                cur = Some(Block { key: norm_key(k), ..Default::default() });
                sec = None;
                continue;
            }
            if line.starts_with('#') || line.trim().is_empty() {
                if line.trim().is_empty() {
                    if let (Some(b), Some(s)) = (cur.as_mut(), sec.as_ref()) {
                        b.sections.get_mut(s).unwrap().push('\n');
                    }
                }
                continue;
            }
            if !line.starts_with(' ') && !line.starts_with('\t') {
                let (name, val) = line
                    .split_once(':')
                    .unwrap_or_else(|| panic!("{}:{}: bad section line {:?}", file, ln + 1, line));
                let b = cur.as_mut().unwrap_or_else(|| panic!("{}:{}: section outside block", file, ln + 1));
                let name = norm_key(name);
                assert!(!b.sections.contains_key(&name), "{}:{}: duplicate section {}", file, ln + 1, name);
                b.sections.insert(name.clone(), val.trim().to_string());
                sec = Some(name);
                continue;
            }
            let b = cur.as_mut().expect("line outside block");
            let s = sec.as_ref().unwrap_or_else(|| panic!("{}:{}: text outside section", file, ln + 1));
            let e = b.sections.get_mut(s).unwrap();
            if !e.is_empty() {
                e.push('\n');
            }
            e.push_str(line);
        }
        if let Some(b) = cur.take() {
            self.insert(b);
        }
    }
    fn insert(&mut self, b: Block) {
        assert!(!self.blocks.contains_key(&b.key), "duplicate block {}", b.key);
        self.blocks.insert(b.key.clone(), b);
    }
}

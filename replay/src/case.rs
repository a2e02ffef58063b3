//! A test case and its text form: `prop;und;op a b, op a b;args;hexbytes`
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    pub und: bool,
    pub ops: Vec<(String, Vec<u64>)>,
    pub args: Vec<u64>,
    pub bytes: Vec<u8>,
}
impl Case {
    pub fn new(prop: &str, und: bool) -> Case {
        Case { prop: prop.into(), und, ..Default::default() }
    }
    pub fn op(&mut self, name: &str, a: &[u64]) -> &mut Case {
        self.ops.push((name.into(), a.to_vec()));
        self
    }
    pub fn text(&self) -> String {
        let ops: Vec<String> = self
            .ops
            .iter()
            .map(|(n, a)| a.iter().fold(n.clone(), |s, x| format!("{s} {x}")))
            .collect();
        let args: Vec<String> = self.args.iter().map(|x| x.to_string()).collect();
        let hex: String = self.bytes.iter().map(|b| format!("{b:02x}")).collect();
        format!("{};{};{};{};{}", self.prop, self.und as u8, ops.join(","), args.join(" "), hex)
    }
    /// `fan v n`: edges from v to 0..n; `cofan v n`: edges from 0..n to v
    pub fn expand(&self) -> Option<Case> {
        if !self.ops.iter().any(|o| o.0.ends_with("fan")) {
            return None;
        }
        let mut c = self.clone();
        c.ops.clear();
        for (n, a) in &self.ops {
            match n.as_str() {
                "fan" => (0..a[1]).for_each(|i| c.ops.push(("add".into(), vec![a[0], i]))),
                "cofan" => (0..a[1]).for_each(|i| c.ops.push(("add".into(), vec![i, a[0]]))),
                _ => c.ops.push((n.clone(), a.clone())),
            }
        }
        Some(c)
    }
    pub fn parse(s: &str) -> Option<Case> {
        let p: Vec<&str> = s.trim().split(';').collect();
        if p.len() != 5 {
            return None;
        }
        let nums = |s: &str| -> Option<Vec<u64>> { s.split_whitespace().map(|x| x.parse().ok()).collect() };
        let mut ops = vec![];
        for o in p[2].split(',').filter(|o| !o.trim().is_empty()) {
            let (n, a) = o.trim().split_once(' ').unwrap_or((o.trim(), ""));
            ops.push((n.to_string(), nums(a)?));
        }
        let h = p[4];
        let bytes = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>()?;
        Some(Case { prop: p[0].into(), und: p[1] == "1", ops, args: nums(p[3])?, bytes })
    }
}

/// splitmix64
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}

//! Numbers and names that occur in the code under test (`tools/dictionary.py`): some of the sizes,
//! values and names that are generated come from here. Nothing is judged by it.
use crate::names::{builtin, constant};
use crate::src::Src;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// as it was given
    pub text: String,
    pub nums: Vec<f64>,
    /// whole numbers that may be a limit of something, and their neighbours
    pub sizes: Vec<usize>,
    /// letters, digits, underscores and primes
    pub words: Vec<&'static str>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

/// Before the first case; a replay uses the words of the run that failed.
pub fn set_dict(text: &str) {
    let (nums, words) = text.trim().split_once(';').unwrap_or_default();
    // limits of the number types need not be written to be there
    let mut nums: Vec<f64> = nums.split(',').filter_map(|w| w.parse().ok()).collect();
    nums.extend([127.0, 255.0, 256.0, 65_535.0, 16_777_217.0, 2_147_483_647.0, 4_294_967_295.0, 9_007_199_254_740_992.0]);
    let mut sizes: Vec<usize> = nums
        .iter()
        .filter(|v| v.fract() == 0.0 && (3.0..=70_000.0).contains(*v))
        .flat_map(|v| [*v as usize - 1, *v as usize, *v as usize + 1])
        .collect();
    sizes.sort_unstable();
    sizes.dedup();
    let words = words
        .split(',')
        .filter(|w| !w.is_empty() && builtin(w).is_none() && constant(w).is_none())
        .map(|w| &*w.to_owned().leak())
        .collect();
    let _ = DICT.set(Dict { text: text.trim().to_owned(), nums, sizes, words });
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

impl Src<'_> {
    /// Like `range`; sometimes a size from the dictionary, up to `cap`.
    pub fn size(&mut self, lo: usize, hi_incl: usize, cap: usize) -> usize {
        let k = usize::from(self.raw());
        let top = 1 << 11;
        if k < (1 << 16) - top {
            return lo + k * (hi_incl - lo + 1) / ((1 << 16) - top);
        }
        self.dict_size(lo, cap).unwrap_or(hi_incl)
    }
    pub fn dict_size(&mut self, lo: usize, cap: usize) -> Option<usize> {
        let sizes = &dict().sizes;
        let from = sizes.partition_point(|v| *v < lo);
        let to = sizes.partition_point(|v| *v <= cap);
        (from < to).then(|| sizes[from + self.below(to - from)])
    }
    /// A number from the dictionary, or near one.
    pub fn dict_num(&mut self) -> Option<f64> {
        let nums = &dict().nums;
        if nums.is_empty() {
            return None;
        }
        let v = *self.pick(nums);
        Some(match self.below(12) {
            0..=3 => v,
            4 => -v,
            5 => v + 1.0,
            6 => v - 1.0,
            7 => v + 0.5,
            8 => f64::from_bits(v.to_bits().wrapping_add(1)),
            9 => f64::from_bits(v.to_bits().wrapping_sub(1)),
            10 => v / 2.0,
            _ => 2.0 * v,
        })
    }
    /// A name made with a word of the dictionary.
    pub fn dict_name(&mut self) -> Option<String> {
        let words = &dict().words;
        if words.is_empty() {
            return None;
        }
        let w = *self.pick(words);
        let plain = w.starts_with(|c: char| c.is_ascii_alphabetic());
        Some(match self.below(8) {
            0..=2 if plain => w.to_owned(),
            3 if plain => format!("{w}{}", self.pick(&["1", "_", "'", "x", "ed"])),
            4 if plain => w.to_uppercase(),
            k => format!("{}{w}", self.pick(&["x", "a", "foo", "x1", "B_"][..if k < 6 { 3 } else { 5 }])),
        })
    }
    /// The same, with a static life (a small number of them).
    pub fn dict_static_name(&mut self) -> Option<&'static str> {
        let words: &'static [&'static str] = &dict().words;
        let ok = |w: &&&'static str| w.starts_with(|c: char| c.is_ascii_alphabetic());
        let n = words.iter().filter(ok).count();
        (n > 0).then(|| *words.iter().filter(ok).nth(self.below(n)).unwrap())
    }
}

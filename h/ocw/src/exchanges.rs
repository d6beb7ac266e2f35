//! What the exchanges say, written from their documented formats and from what the worker asks of an answer.
use crate::node::Answer;
use pallet_oracle_ocw::types::AssetName;
use pbt::Src;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exchange {
    Kraken,
    Bitfinex,
    Bitstamp,
    Coinbase,
    Xt,
    Mexc,
}
use Exchange::*;
pub const EXCHANGES: [Exchange; 6] = [Kraken, Bitfinex, Bitstamp, Coinbase, Xt, Mexc];
impl Exchange {
    /// rows of a usual answer
    pub fn rows(self) -> usize {
        match self {
            Xt | Mexc => 10,
            _ => 15,
        }
    }
}
pub fn url(x: Exchange, a: AssetName) -> Option<String> {
    let n = |usdt: &str, usdc: &str, dot: &str| -> Option<String> {
        match a {
            AssetName::USDT => Some(usdt.into()),
            AssetName::USDC => (!usdc.is_empty()).then(|| usdc.into()),
            AssetName::DOT => Some(dot.into()),
            AssetName::PLMC => None,
        }
    };
    match x {
        Kraken => n("USDTZUSD", "USDCUSD", "DOTUSD").map(|p| format!("https://api.kraken.com/0/public/OHLC?pair={p}&interval=1")),
        Bitfinex => n("UST", "UDC", "DOT").map(|p| format!("https://api-pub.bitfinex.com/v2/candles/trade%3A1m%3At{p}USD/hist?limit=15")),
        Bitstamp => n("usdt", "usdc", "dot").map(|p| format!("https://www.bitstamp.net/api/v2/ohlc/{p}usd/?step=60&limit=15")),
        Coinbase => n("USDT", "", "DOT").map(|p| format!("https://api.exchange.coinbase.com/products/{p}-USD/candles?granularity=60")),
        Xt => (a == AssetName::PLMC).then(|| "https://sapi.xt.com/v4/public/kline?symbol=plmc_usdt&interval=30m&limit=10".into()),
        Mexc => (a == AssetName::PLMC).then(|| "https://api.mexc.com/api/v3/klines?symbol=PLMCUSDT&interval=30m&limit=10".into()),
    }
}
/// a decimal number
#[derive(Clone, Debug)]
pub struct Dec(pub String);
impl Dec {
    pub fn new(m: u128, places: usize) -> Self {
        let t = format!("{:0>w$}", m, w = places + 1);
        let (i, f) = t.split_at(t.len() - places);
        Dec(if places == 0 { i.into() } else { format!("{i}.{f}") })
    }
    fn val(&self) -> f64 {
        self.0.parse().expect("a number")
    }
}
#[derive(Clone, Debug)]
pub struct Row {
    open: Dec,
    high: Dec,
    low: Dec,
    close: Dec,
    vol: Dec,
}
/// a minute of trade around a price of `level` millionths
pub fn row(s: &mut Src, level: u128) -> Row {
    let mut p = |lo: u128| Dec::new(level + lo + s.below(level as u64 / 8 + 1) as u128, 6);
    let (low, open, close) = (p(0), p(level / 8), p(level / 8));
    let high = p(level / 4);
    let places = *s.pick(&[0usize, 1, 6]);
    let vol = if s.weighted(&[5, 1]) == 1 { Dec::new(0, places) } else { Dec::new(s.magnitude(30) + 1, places) };
    Row { open, high, low, close, vol }
}
#[derive(Default)]
pub struct Sum {
    pub pv: f64,
    pub vol: f64,
    pub rows: f64,
    pub high: f64,
    pub answers: u32,
}
impl Sum {
    pub fn add(&mut self, rows: &[Row]) {
        for r in rows {
            let v = r.vol.val();
            self.pv += v * (r.high.val() + r.low.val() + r.close.val()) / 3.0;
            self.vol += v;
            self.rows += 1.0;
            self.high = self.high.max(r.high.val());
        }
        self.answers += (rows.iter().any(|r| r.vol.val() > 0.0)) as u32;
    }
}
/// rows as the exchange writes them; `bad` spoils a field of a row
fn render(x: Exchange, a: AssetName, rows: &[Row], bad: Option<(usize, usize, &str)>) -> Vec<u8> {
    let pair = match a {
        AssetName::USDT => "USDTZUSD",
        AssetName::USDC => "USDCUSD",
        AssetName::DOT => "DOTUSD",
        AssetName::PLMC => "PLMCUSD",
    };
    let f = |i: usize, k: usize, d: &Dec| -> String {
        match bad {
            Some((r, f, t)) if r == i && f == k => t.to_string(),
            _ => d.0.clone(),
        }
    };
    let each: Vec<String> = rows
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let t = 1_701_878_000 + 60 * i;
            let (o, h, l, c, v) = (&r.open.0, f(i, 0, &r.high), f(i, 1, &r.low), f(i, 2, &r.close), f(i, 3, &r.vol));
            match x {
                Kraken => format!(r#"[{t},"{o}","{h}","{l}","{c}","{o}","{v}",{i}]"#),
                Bitfinex => format!("[{t}000,{o},{c},{h},{l},{v}]"),
                Bitstamp => format!(r#"{{"close": "{c}", "high": "{h}", "low": "{l}", "open": "{o}", "timestamp": "{t}", "volume": "{v}"}}"#),
                Coinbase => format!("[{t},{l},{h},{o},{c},{v}]"),
                Xt => format!(r#"{{"t":{t}000,"o":"{o}","c":"{c}","h":"{h}","l":"{l}","q":"7.25","v":"{v}"}}"#),
                Mexc => format!(r#"[{t}000,"{o}","{h}","{l}","{c}","{v}",{t}999,"7.25"]"#),
            }
        })
        .collect();
    let list = each.join(if x == Bitstamp { ", " } else { "," });
    match x {
        Kraken => format!(r#"{{"error":[],"result":{{"{pair}":[{list}],"last":1699977300}}}}"#),
        Bitstamp => format!(r#"{{"data": {{"ohlc": [{list}], "pair": "{pair}"}}}}"#),
        Xt => format!(r#"{{"rc":0,"mc":"SUCCESS","ma":[],"result":[{list}]}}"#),
        _ => format!("[{list}]"),
    }
    .into_bytes()
}
pub fn body(x: Exchange, a: AssetName, rows: &[Row]) -> Vec<u8> {
    render(x, a, rows, None)
}
/// an answer of which the price is block % 50 + 1
pub fn one_row(x: Exchange, a: AssetName, block: u64) -> Vec<u8> {
    let p = || Dec::new((block % 50 + 1) as u128, 0);
    render(x, a, &[Row { open: p(), high: p(), low: p(), close: p(), vol: Dec::new(1, 0) }], None)
}
/// an answer, the rows of it that count (none if it does not), and what kind it is
pub fn answer(s: &mut Src, x: Exchange, a: AssetName, level: u128) -> (Answer, Option<Vec<Row>>, &'static str) {
    let usual = x.rows();
    let ok = |body: Vec<u8>, delay: u64| Answer::Http { status: 200, delay, body, breaks: None };
    let rows = |s: &mut Src, n: usize| -> Vec<Row> { (0..n).map(|_| row(s, level)).collect() };
    let delay = if s.flag() { 0 } else { s.below(4900) };
    match s.weighted(&[14, 3, 3, 3, 2, 2, 1, 1, 1, 2]) {
        0 => {
            let r = rows(s, usual);
            (ok(body(x, a, &r), delay), Some(r), "usual")
        },
        1 => {
            let n = s.below(usual as u64) as usize;
            let r = rows(s, n);
            // XT and Kraken are taken at whatever they have
            let counts = matches!(x, Xt | Kraken);
            (ok(body(x, a, &r), delay), counts.then_some(r), "fewer rows")
        },
        2 => {
            let n = if s.chance(1, 40) { if x == Kraken { 721 } else { 1001 } } else { usual + 1 + s.below(20) as usize };
            let r = rows(s, n);
            let b = body(x, a, &r);
            let counts = match x {
                // the newest are last
                Kraken if n <= 720 => Some(r[n - 15..].to_vec()),
                // the newest are first
                Coinbase if n <= 1000 => Some(r[..15].to_vec()),
                _ => None,
            };
            (ok(b, delay), counts, "more rows")
        },
        3 => {
            let n = if matches!(x, Kraken | Coinbase) { usual + s.below(8) as usize } else { usual };
            let r = rows(s, n);
            let (i, f) = (s.below(n as u64) as usize, s.below(4) as usize);
            let t = *s.pick(&["-1.5", "x1", "", "1.2.3", "null", "1,5", "-7"]);
            let b = render(x, a, &r, Some((i, f, t)));
            // numbers of Coinbase and Bitfinex are judged row by row, and Coinbase's old rows not at all
            let counts = (x == Coinbase && t.starts_with('-') && i >= 15).then(|| r[..15].to_vec());
            (ok(b, delay), counts, "a bad number")
        },
        4 => {
            let r = rows(s, usual);
            (Answer::Http { status: *s.pick(&[404, 500, 503, 429, 302, 201, 204]), delay, body: body(x, a, &r), breaks: None }, None, "another status")
        },
        5 => {
            let r = rows(s, usual);
            (ok(body(x, a, &r), 5001 + s.below(5000)), None, "too late")
        },
        6 => (Answer::Io { delay }, None, "no connection"),
        7 => (Answer::Refused, None, "not started"),
        8 => {
            let r = rows(s, usual);
            let b = body(x, a, &r);
            let k = s.below(b.len() as u64) as usize;
            (Answer::Http { status: 200, delay, body: b, breaks: Some(k) }, None, "cut short")
        },
        _ => {
            let b: Vec<u8> = match s.below(6) {
                0 => b"{\"error\":[\"EGeneral:Too many requests\"]}".to_vec(),
                1 => b"{}".to_vec(),
                2 => b"[]".to_vec(),
                3 => b"<html>try again</html>".to_vec(),
                4 => vec![0xff, 0xfe, 0x80],
                _ => vec![],
            };
            (ok(b, delay), None, "no candles")
        },
    }
}
/// anything at all
pub fn strange(s: &mut Src, x: Exchange, a: AssetName) -> Vec<u8> {
    let n = if s.flag() { x.rows() } else { s.below(20) as usize };
    let big = s.flag();
    let mut num = |s: &mut Src| -> Dec {
        if !big && s.flag() {
            return Dec::new(s.magnitude(30), 3);
        }
        match s.below(5) {
            0 => Dec("9".repeat(1 + s.below(45) as usize)),
            1 => Dec::new(s.magnitude(128), s.below(40) as usize),
            2 => Dec::new(1 << s.below(127), 0),
            3 => Dec(format!("0.{}1", "0".repeat(s.below(40) as usize))),
            _ => Dec(s.pick(&["0", "1e30", "1e400", "-0", "1e-30", "-1", "NaN", "Infinity", "+1", "00012", ".5", "5.", "1267650600228229401496703205375", "340282366920938463463"]).to_string()),
        }
    };
    let rows: Vec<Row> = (0..n)
        .map(|_| if s.chance(1, 3) { row(s, 1_000_000) } else { Row { open: num(s), high: num(s), low: num(s), close: num(s), vol: num(s) } })
        .collect();
    let mut b = body(x, a, &rows);
    for _ in 0..(if s.flag() { 0 } else { 1 + s.below(4) }) {
        if b.is_empty() {
            break;
        }
        let i = s.below(b.len() as u64) as usize;
        match s.below(4) {
            0 => b[i] = s.below(256) as u8,
            1 => {
                b.remove(i);
            },
            2 => b.insert(i, *s.pick(b"[]{}\",:.-09eE\\ ")),
            _ => {
                let j = (i + s.below(40) as usize).min(b.len());
                let piece = b[i..j].to_vec();
                b.splice(i..i, piece);
            },
        }
    }
    b
}
pub fn text(a: &Answer) -> String {
    match a {
        Answer::Http { status, delay, body, breaks } => format!("{status} after {delay} ms{}: {}", breaks.map(|k| format!(", breaks after {k} bytes")).unwrap_or_default(), String::from_utf8_lossy(body)),
        x => format!("{x:?}"),
    }
}

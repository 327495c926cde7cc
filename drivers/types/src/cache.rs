//! C09: caches never change answers and stay within their configured size.
use crate::common::Ctx;
use std::collections::HashMap;
use types_ts_interned::{CacheConfig, ShardedCache};

#[derive(Clone, Copy, Debug)]
enum Op {
  Ins(u32, u32),
  Get(u32),
  Rem(u32),
  Has(u32),
  Clear,
}

fn check(cfg: CacheConfig, ops: &[Op], keys: u32) -> Result<(), String> {
  let cache: ShardedCache<u32, u32> = ShardedCache::new(cfg);
  let mut last: HashMap<u32, u32> = HashMap::new(); // last value stored under a key and not removed since
  let mut ops_done = (0u64, 0u64);
  for (n, op) in ops.iter().enumerate() {
    let before: HashMap<u32, u32> = cache.entries().into_iter().collect();
    match *op {
      Op::Ins(k, v) => {
        cache.insert(k, v);
        last.insert(k, v);
        let roomy = cfg.max_entries >= cfg.shard_count.max(1);
        if roomy {
          ensure!(cache.contains(&k), "op {n}: key {k} is absent right after it was stored");
        }
        let after: HashMap<u32, u32> = cache.entries().into_iter().collect();
        let gone = before.keys().filter(|b| **b != k && !after.contains_key(b)).count();
        ensure!(gone <= 1, "op {n}: storing {k} dropped {gone} other entries");
        ensure!(gone == 0 || !before.contains_key(&k), "op {n}: overwriting {k} dropped another entry");
        if cfg.shard_count <= 1 {
          ensure!(gone == 0 || before.len() == cfg.max_entries, "op {n}: an entry was dropped while the cache was not full");
        }
      }
      Op::Get(k) => {
        let g = cache.get(&k);
        ops_done.0 += 1;
        if g.is_some() { ops_done.1 += 1; }
        if let Some(v) = g {
          ensure!(last.get(&k) == Some(&v), "op {n}: get({k}) = {v}, last stored {:?}", last.get(&k));
        }
        ensure!(g.is_some() == before.contains_key(&k), "op {n}: get({k}) = {g:?} but entries say {:?}", before.get(&k));
      }
      Op::Rem(k) => {
        let r = cache.remove(&k);
        ensure!(r == before.get(&k).copied(), "op {n}: remove({k}) = {r:?}, held {:?}", before.get(&k));
        last.remove(&k);
        ensure!(!cache.contains(&k), "op {n}: key {k} survives its removal");
      }
      Op::Has(k) => {
        ensure!(cache.contains(&k) == before.contains_key(&k), "op {n}: contains({k}) disagrees with the entries");
      }
      Op::Clear => {
        cache.clear();
        last.clear();
        ops_done = (0, 0);
        ensure!(cache.len() == 0, "op {n}: entries survive clear");
      }
    }
    let es = cache.entries();
    ensure!(es.len() == cache.len(), "op {n}: len {} but {} entries", cache.len(), es.len());
    ensure!(cache.len() <= cfg.max_entries, "op {n}: {} entries exceed the configured {}", cache.len(), cfg.max_entries);
    let m: HashMap<u32, u32> = es.iter().copied().collect();
    ensure!(m.len() == es.len(), "op {n}: a key is stored twice");
    for (k, v) in &m {
      ensure!(last.get(k) == Some(v), "op {n}: holds {k} -> {v}, last stored {:?}", last.get(k));
    }
    if !matches!(op, Op::Ins(..) | Op::Rem(_) | Op::Clear) {
      ensure!(m == before, "op {n}: a lookup changed the contents");
    }
    if let Op::Rem(k) = op {
      let mut b = before.clone();
      b.remove(k);
      ensure!(m == b, "op {n}: removing {k} changed other entries");
    }
    for k in 0..keys {
      ensure!(cache.contains(&k) == m.contains_key(&k), "op {n}: contains({k}) disagrees with the entries");
    }
    let st = cache.stats();
    ensure!(st.hits == ops_done.1 && st.hits + st.misses == ops_done.0, "op {n}: statistics {st:?} after {ops_done:?} (lookups, hits)");
  }
  Ok(())
}

pub fn run(cx: &mut Ctx) {
  cx.rule = "every sequence of 5 (thorough: 6) operations over 3 keys on a single shard of capacity 0..=3, then seeded random sequences of 40-400 operations over up to 24 keys, 1..=9 shards, 0..=40 entries; a case counts when it stores at least one entry".into();
  let alphabet: Vec<Op> = (0..3)
    .flat_map(|k| [Op::Ins(k, 0), Op::Get(k), Op::Rem(k)])
    .chain([Op::Clear])
    .collect();
  let len = if cx.thorough { 6 } else { 5 };
  for cap in 0..=3usize {
    let total = alphabet.len().pow(len as u32);
    for code in 0..total {
      let mut c = code;
      let mut ops = Vec::with_capacity(len);
      for n in 0..len {
        let mut op = alphabet[c % alphabet.len()];
        c /= alphabet.len();
        if let Op::Ins(_, v) = &mut op {
          *v = n as u32 + 100;
        }
        ops.push(op);
      }
      let cfg = CacheConfig { max_entries: cap, shard_count: 1 };
      let nt = ops.iter().any(|o| matches!(o, Op::Ins(..)));
      if !nt {
        continue;
      }
      cx.case(nt, format!("{cfg:?} {ops:?}"), || check(cfg, &ops, 3));
    }
  }
  let rounds = if cx.thorough { 40000 } else { 4000 };
  for _ in 0..rounds {
    let keys = 1 + cx.rng.below(24) as u32;
    let cfg = CacheConfig { max_entries: cx.rng.below(41), shard_count: cx.rng.below(10) };
    let n = 40 + cx.rng.below(if cx.thorough { 360 } else { 160 });
    let ops: Vec<Op> = (0..n)
      .map(|i| {
        let k = cx.rng.below(keys as usize) as u32;
        match cx.rng.below(20) {
          0..=8 => Op::Ins(k, 1000 + i as u32),
          9..=14 => Op::Get(k),
          15..=17 => Op::Rem(k),
          18 => Op::Has(k),
          _ => if cx.rng.below(6) == 0 { Op::Clear } else { Op::Get(k) },
        }
      })
      .collect();
    cx.case(true, format!("{cfg:?} keys={keys} {ops:?}"), || check(cfg, &ops, keys));
  }
}

// ---- lib/insts.rs: instructions and blocks ----
#[verifier::external_body]
struct Const { c: u8 }
#[verifier::external_body]
struct SymbolId { s: u8 }
/*@type optimize-js/src/il/inst.rs :: Arg
@*/
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
/*@type optimize-js/src/il/inst.rs :: InstTyp
@*/
/*@type optimize-js/src/il/inst.rs :: BinOp
@*/
/*@type optimize-js/src/il/inst.rs :: UnOp
@*/
/*@type optimize-js/src/il/inst.rs :: Inst
@*/
/*@type optimize-js/src/cfg/cfg.rs :: CfgBBlocks
@*/
/*@type optimize-js/src/cfg/cfg.rs :: Cfg
@*/
/// the (label, block) pairs, in some order
spec fn blocks_of(l: Seq<(u32, &Vec<Inst>)>, m: Map<u32, Vec<Inst>>) -> bool {
  &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).0) && m[l[i].0] == *l[i].1
  &&& forall|k: u32| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k
  &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0
}
impl CfgBBlocks {
/*@fn optimize-js/src/cfg/cfg.rs :: CfgBBlocks::get
#ret r
#spec
  requires self.0@.contains_key(label),
  ensures *r == self.0@[label],
@*/
  /// `self.0.iter().map(|(k, v)| (*k, v))`
  #[verifier::external_body]
  fn all(&self) -> (r: Vec<(u32, &Vec<Inst>)>) ensures blocks_of(r@, self.0@) { unimplemented!() }
}

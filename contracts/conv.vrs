//@ tag base
//@ # ---- stand-ins for core conversion traits, so that contracts can be attached
trait From<T>: Sized {
    spec fn from_req(v: T) -> bool;
    spec fn from_ens(v: T, r: Self) -> bool;
    fn from(v: T) -> (r: Self) requires Self::from_req(v) ensures Self::from_ens(v, r);
}
trait Default: Sized {
    spec fn is_default(&self) -> bool;
    fn default() -> (r: Self) ensures r.is_default();
}

    open spec fn holds(&self, x: DVector<F>) -> bool { forall|i: int| 0 <= i < x@.len() ==> fle(self.lower@[i], #[trigger] x@[i]) && fle(x@[i], self.upper@[i]) }
    open spec fn fits(&self, x: DVector<F>) -> bool { self.lower@.len() >= x@.len() && self.upper@.len() >= x@.len() }

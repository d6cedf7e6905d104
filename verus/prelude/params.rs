// constant parameters and their accessors
//@item src/parameters/weights.rs enum Weights derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/parameters/weights.rs struct FinalWeights
//@item src/parameters/mod.rs struct TerminationParameters
//@item src/parameters/mod.rs struct Parameters
impl FinalWeights {
//@fn src/parameters/weights.rs "impl FinalWeights" setting
//@| ensures r == self.setting,
//@end
}
impl Parameters {
//@fn src/parameters/mod.rs "impl Parameters" mode
//@| ensures r == self.mode, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" dim
//@| ensures r == self.dim, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" lambda
//@| ensures r == self.lambda, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" mu
//@| ensures r == self.mu, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" initial_sigma
//@| ensures r == self.initial_sigma, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" mu_eff
//@| ensures r == self.mu_eff, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" cc
//@| ensures r == self.cc, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" c1
//@| ensures r == self.c1, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" cs
//@| ensures r == self.cs, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" cmu
//@| ensures r == self.cmu, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" cm
//@| ensures r == self.cm, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" damp_s
//@| ensures r == self.damp_s, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" seed
//@| ensures r == self.seed, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" parallel_update
//@| ensures r == self.parallel_update, /*C10 C11 C19*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" weights
//@sub 1 /&self\.weights/&self.weights.weights/
//@| ensures *r == self.weights.weights, /*C11*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" weights_setting
//@| ensures r == self.weights.setting, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" max_function_evals
//@| ensures r == self.termination.max_function_evals, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" max_generations
//@| ensures r == self.termination.max_generations, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" max_time
//@| ensures r == self.termination.max_time, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" fun_target
//@| ensures r == self.termination.fun_target, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" tol_fun
//@| ensures r == self.termination.tol_fun, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" tol_fun_rel
//@| ensures r == self.termination.tol_fun_rel, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" tol_fun_hist
//@| ensures r == self.termination.tol_fun_hist, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" tol_x
//@| ensures r == self.termination.tol_x, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" tol_stagnation
//@| ensures r == self.termination.tol_stagnation, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" tol_x_up
//@| ensures r == self.termination.tol_x_up, /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" tol_condition_cov
//@| ensures r == self.termination.tol_condition_cov, /*C10*/
//@end
}

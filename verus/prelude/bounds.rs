//@item src/sampling.rs struct Bounds

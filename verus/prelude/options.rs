//@item src/plotting/options.rs struct PlotOptions
//@item src/options.rs struct CMAESOptions
//@isub 1 /Box<dyn Constraints>/BoxC/

// accessors of the history
impl History {
//@fn src/history.rs "impl History" best_function_values
//@| ensures *r == self.best_function_values, /*C02*/
//@end
//@fn src/history.rs "impl History" median_function_values
//@| ensures *r == self.median_function_values, /*C02*/
//@end
//@fn src/history.rs "impl History" first_median_function_value
//@| ensures r == self.first_median_function_value, /*C02*/
//@end
//@fn src/history.rs "impl History" best_median_function_value
//@| ensures r == self.best_median_function_value, /*C02*/
//@end
//@fn src/history.rs "impl History" current_median_function_value
//@| ensures r == (if self.median_function_values@.len() > 0 { Some(self.median_function_values@[0]) } else { None::<F> }), /*C02 C20*/
//@end
//@fn src/history.rs "impl History" current_best_individual
//@| ensures r == (match self.current_best_individual { Some(x) => Some(&x), None => None }), /*C01*/
//@end
//@fn src/history.rs "impl History" overall_best_individual
//@| ensures r == (match self.overall_best_individual { Some(x) => Some(&x), None => None }), /*C01*/
//@end
}

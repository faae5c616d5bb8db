//! Only there so that cargo builds yule_log with its derive macros for the definitions that check_c24 gives to rustc.

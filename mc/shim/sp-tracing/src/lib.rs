pub fn try_init_simple() {} pub fn init_for_tests() {}

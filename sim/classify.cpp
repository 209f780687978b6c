// Maps the exception in flight to a code (the library's own types are needed here).
#include "cat.hpp"
#include <new>
#include "lalib/err/error.hpp"
namespace cat {
int classify_current(std::string* what) {
    try { throw; }
    catch (const lalib::vec_error::SizeMismatched& e) { *what = e.what(); return X_SIZE; }
    catch (const std::bad_alloc& e) { *what = e.what(); return X_ALLOC; }
    catch (const std::out_of_range& e) { *what = e.what(); return X_RANGE; }
    catch (const std::invalid_argument& e) { *what = e.what(); return X_INVALID; }
    catch (const std::runtime_error& e) { *what = e.what(); return X_RUNTIME; }
    catch (const std::exception& e) { *what = e.what(); return X_OTHER_STD; }
    catch (...) { *what = "?"; return X_UNKNOWN; }
}
}

// The class of the exception being handled, as the specifications name it.
#ifndef VERIF_EXCEPT_HPP
#define VERIF_EXCEPT_HPP
#include <new>
#include <stdexcept>
#include <string>
#include <boost/astronomy/exception/fits_exception.hpp>
inline std::string describe_fits() {
    namespace ba = boost::astronomy;
    try { throw; }
    catch (ba::invalid_card const&) { return "invalid_card"; }
    catch (ba::invalid_cast const&) { return "invalid_cast"; }
    catch (ba::wrong_extension_type const&) { return "wrong_extension_type"; }
    catch (ba::file_reading_exception const&) { return "file_reading_exception"; }
    catch (ba::invalid_table_colum_format const&) { return "invalid_table_colum_format"; }
    catch (ba::fits_exception const&) { return "fits_exception"; }
    catch (std::out_of_range const&) { return "out_of_range"; }
    catch (std::bad_alloc const&) { return "bad_alloc"; }
    catch (std::length_error const&) { return "length_error"; }
    catch (std::logic_error const&) { return "logic_error"; }
    catch (std::runtime_error const&) { return "runtime_error"; }
    catch (std::exception const&) { return "exception"; }
    catch (...) { return "unknown"; }
}
#endif

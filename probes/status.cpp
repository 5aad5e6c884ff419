// Constants of the public interface, read from the module as constant initialisers.
#include "Json4C4/C4Json.h"
extern "C"
{
    extern const unsigned sa_status_exception = (unsigned)C4::Json::Status::kException;
    extern const unsigned sa_status_ok        = (unsigned)C4::Json::Status::kOk;
}

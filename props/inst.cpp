// Instantiates the generic helpers of the library for its scalar type, so that the verifier sees the instantiated bodies.
#include "fuzzylite/Headers.h"
namespace fuzzylite {
    template scalar Operation::min(scalar, scalar);
    template scalar Operation::max(scalar, scalar);
    template scalar Operation::bound(scalar, scalar, scalar);
    template bool Operation::in(scalar, scalar, scalar, bool, bool);
    template bool Operation::isInf(scalar);
    template bool Operation::isNaN(scalar);
    template bool Operation::isFinite(scalar);
    template scalar Operation::sum(const std::vector<scalar>&);
    template scalar Operation::mean(const std::vector<scalar>&);
    template scalar Operation::variance(const std::vector<scalar>&);
    template scalar Operation::variance(const std::vector<scalar>&, scalar);
    template scalar Operation::standardDeviation(const std::vector<scalar>&);
    template scalar Operation::standardDeviation(const std::vector<scalar>&, scalar);
}

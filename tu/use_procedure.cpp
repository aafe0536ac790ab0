// Instances of the procedure templates that the analysis reads; never compiled into anything.
#include "function/procedure.hpp"
#include "function/procedure.tpl.hpp"
#include "function/function.hpp"
namespace Ariadne {
template FloatDPBounds evaluate(const Procedure<ValidatedNumber>&, const Vector<FloatDPBounds>&);
template FloatDPApproximation evaluate(const Procedure<ApproximateNumber>&, const Vector<FloatDPApproximation>&);
template Vector<UpperIntervalType> evaluate(const Vector<Procedure<ValidatedNumber>>&, const Vector<UpperIntervalType>&);
}

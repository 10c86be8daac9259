// Abstract element function: declared only, behaviour by contract.
struct AbsElem { double operator()(size_t, size_t) const; };
inline void vrf_driver(ldlt_ext& Q, AbsElem& A)
{
    Q.factor<AbsElem&, false>(A);
    Q.factor<AbsElem&, true>(A);
}

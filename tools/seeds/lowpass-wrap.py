prop = 'P16'
needs = 'a cut for the last non-negativity row, then a point that violates only an earlier one'
breaks = 'after a cut at the last row the non-negativity scan starts past the end and stops there: the earlier rows are not looked at'
subs = [('lib/src/lowpass_oracle.cpp', '''    k = this->_i_Anr;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
''', '''    k = this->_i_Anr;
    for (auto i = k; i < N + this->_i_Anr; ++i, ++k)
    {
        if (k == N)
        {
            if (i == N && this->_i_Anr == N)
            {
                break;
            }
            k = 0; // round robin
        }
''')]
srcs = ['lowpass_oracle.cpp']
demo = r'''
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    Arr Ap {{1., 0.}}, As {{1., 0.}}, Anr {{0., 1.}, {1., -1.}};
    lowpass_oracle P(Ap, As, Anr, 0., 10.);
    double S = 9;
    P(Arr {1., 2.}, S);            // row 1 negative
    auto r = P(Arr {1., -1.}, S);  // row 0 negative
    if (std::get<1>(r)) return std::printf("improvement although a response is negative\n"), 1;
}
'''

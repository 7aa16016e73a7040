#include "est.hpp"

namespace H
{

template<Kind K>
EstP make_est_k(Cfg const & c, bool via_json, Status * st)
{
    EstP r;
    auto ei = via_json ? make_json<K>(c.json()) : make_from_cfg_args<K>(c);
    if (ei.isLeft)
    {
        if (st) *st = {int(ei.leftValue.first), ei.leftValue.second};
    }
    else r = std::make_unique<EstT<K>>(std::move(ei.rightValue));
    return r;
}

EstP make_est(Cfg const & c, bool via_json, Status * st)
{
    switch (c.kind)
    {
        case CC: return make_est_k<CC>(c, via_json, st);
        case CB: return make_est_k<CB>(c, via_json, st);
        case RC: return make_est_k<RC>(c, via_json, st);
        default: return make_est_k<RB>(c, via_json, st);
    }
}

} // namespace H

// C20, step form: from every heartbeat state, each event has exactly the specified effect and leads to a heartbeat state again.
#include "peerfix.h"
extern "C" void c20_step() {
    One a; int l = vf_choice("dialled", 2) ? a.link_out() : a.link_in(40); auto *p = a.n->known_peers.find(a.rid)->second.get(); bool due = vf_bool("due"), ans = vf_bool("answered"); vf_assume(!(due && ans));
    p->ping_timer_ok = due; p->pong_msg_ok = ans; UvRec *t = pf_timer(PF_PINGT, a.disp()); if (due) t->active = 0; UvRec *lt = pf_timer(PF_LINKT, a.disp()); int s0 = lt->starts, p0 = pf_count(l, PF_PING, false), q0 = pf_count(l, PF_PONG, false), e = vf_choice("event", 3); bool d1 = due, a1 = ans;
    if (e == 0) { if (!t->active) vf_kill(); pf_tick(PF_PINGT, a.disp()); d1 = true; } else if (e == 1) { pf_beat(l, PF_PONG); a1 = true; } else pf_beat(l, PF_PING); pf_settle(); bool fire = d1 && a1; if (fire) d1 = a1 = false;
    vf_assert(pf_count(l, PF_PING, false) == p0 + (int)fire && lt->starts == s0 + (int)fire && lt->active, "a ping is sent and the timeout started over exactly when the period has elapsed and the previous ping was answered"); vf_assert(pf_count(l, PF_PONG, false) == q0 + (e == 2), "a heartbeat ping is answered with one pong");
    vf_assert(p->ping_timer_ok == d1 && p->pong_msg_ok == a1, "heartbeat state after the step"); vf_assert((pf_timer(PF_PINGT, a.disp()) != nullptr) == !d1, "the period runs exactly until it elapses"); vf_assert(a.linked && !a.down && a.up == 1, "the link stays up"); if (fire) vf_cover("ping"); else vf_cover("no ping");
}

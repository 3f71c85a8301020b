package mclock

import (
	"time"

	"flychain/internal/vspec"
)

// vsClock is a clock that stands still while it is asked, with timers that record what they were set to.
type vsClock struct{ now AbsTime }

func (c *vsClock) Now() AbsTime                       { return c.now }
func (c *vsClock) Sleep(time.Duration)                {}
func (c *vsClock) NewTimer(time.Duration) ChanTimer   { return nil }
func (c *vsClock) After(time.Duration) <-chan AbsTime { return nil }
func (c *vsClock) AfterFunc(d time.Duration, f func()) Timer {
	return &vsTimer{pending: true, at: c.now.Add(d), f: f}
}

type vsTimer struct {
	pending bool
	at      AbsTime
	f       func()
}

func (t *vsTimer) Stop() bool {
	p := t.pending
	t.pending = false
	return p
}

// vsAlarm is an alarm with the given history: a timer set to dl if it was
// scheduled, which is pending or not, and a notification that is unread or not.
func vsAlarm(c *vsClock, scheduled, pending, unread bool, dl AbsTime) *Alarm {
	e := NewAlarm(c)
	if scheduled {
		e.timer = c.AfterFunc(dl.Sub(c.now), e.send)
		e.timer.(*vsTimer).pending = pending
		e.deadline = dl
	}
	if unread {
		e.send()
	}
	return e
}

// vsHistory: such a history can be. A timer that is no longer pending has
// fired, or was stopped, which clears the deadline.
func vsHistory(now AbsTime, scheduled, pending bool, dl AbsTime) bool {
	return 0 <= now && 0 <= dl && (!pending || scheduled) && (!scheduled || pending || dl <= now)
}

// the timer of an alarm: never set, still to fire, fired or stopped
const (
	vsNone = iota
	vsPending
	vsGone
)

//govc:contract NewAlarm prop=C20
func verif_NewAlarm(now AbsTime) {
	e := NewAlarm(&vsClock{now})
	vspec.Ensures("nothing scheduled", e.timer == nil)
	vspec.Ensures("no notification", e.C() != nil && len(e.C()) == 0)
}

//govc:contract Alarm.Schedule prop=C20 noframe
func verif_Schedule(now, dl, x AbsTime, timer int, unread bool) {
	vspec.Requires(vsNone <= timer && timer <= vsGone)
	timer = vspec.Split(timer, vsNone, vsGone)
	scheduled, pending := timer != vsNone, timer == vsPending
	vspec.Requires(vsHistory(now, scheduled, pending, dl))
	c := &vsClock{now}
	e := vsAlarm(c, scheduled, pending, unread, dl)
	before := len(e.C())
	old := e.timer
	e.Schedule(x)
	t := e.timer.(*vsTimer)
	vspec.Ensures("a timer is armed", t.pending)
	vspec.Ensures("for the deadline", t.at == e.deadline)
	vspec.Ensures("no later than asked for", t.at <= x || t.at <= now)
	vspec.Ensures("no later than asked for before", !pending || t.at <= dl || t.at <= now)
	vspec.Ensures("no earlier than any deadline", t.at >= x || pending && t.at >= dl)
	vspec.Ensures("one timer only", old == nil || old == e.timer || !old.(*vsTimer).pending)
	vspec.Ensures("notifications are kept", len(e.C()) == before)
	t.f()
	vspec.Ensures("the timer notifies", len(e.C()) == 1)
}

//govc:contract Alarm.send prop=C20 noframe
func verif_send(now AbsTime, unread bool) {
	e := vsAlarm(&vsClock{now}, false, false, unread, 0)
	e.send()
	vspec.Ensures("a notification is pending", len(e.C()) == 1)
}

//govc:contract Alarm.Stop prop=C20 noframe
func verif_Stop(now, dl AbsTime, timer int, unread bool) {
	vspec.Requires(vsNone <= timer && timer <= vsGone)
	timer = vspec.Split(timer, vsNone, vsGone)
	scheduled, pending := timer != vsNone, timer == vsPending
	vspec.Requires(vsHistory(now, scheduled, pending, dl))
	e := vsAlarm(&vsClock{now}, scheduled, pending, unread, dl)
	old := e.timer
	e.Stop()
	vspec.Ensures("no notification", len(e.C()) == 0)
	vspec.Ensures("no timer armed", e.timer == old && (old == nil || !old.(*vsTimer).pending))
	vspec.Ensures("a history that can be", vsHistory(now, scheduled, false, e.deadline))
}

package alpha

func live_second() string { return "second" }

func (o other) live_other() { o.live_other() }

func Types() []interface{} { return []interface{}{&Live_T{}, &live_u{}} }

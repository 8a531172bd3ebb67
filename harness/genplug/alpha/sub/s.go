package sub

func Live_sub() string { return "sub" }

type Live_S struct{ B string }

func notLive() {}

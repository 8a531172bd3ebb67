package deeper

type Live_Deep struct{}

func live_deep() string { return "deep" }

package h

import (
	"encoding/json"
	"net/http/httptest"

	"github.com/labstack/echo"
	"github.com/labstack/gommon/log"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/controllers"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/helpers"
	"github.com/raa0121/GoBCDice/cmd/GoBCDiceAPI/models"
	"github.com/raa0121/GoBCDice/pkg/dicebot"
	"github.com/raa0121/GoBCDice/pkg/dicebot/list"
	"github.com/raa0121/GoBCDice/pkg/version"
	"github.com/raa0121/GoBCDice/zz_verif/vf"
)

// answered records the answer that is sent.
type answered struct {
	echo.Context
	times int
	code  int
	body  interface{}
	err   error
}

func (c *answered) JSON(code int, body interface{}) error {
	c.times++
	c.code, c.body = code, body
	return c.err
}

func (c *answered) JSONPretty(code int, body interface{}, indent string) error {
	return c.JSON(code, body)
}

// object is the body, which has to be an object with the fields named and the flag.
func (c *answered) object(code int, fields ...string) helpers.ResponseMap {
	vf.Assert(c.times == 1, "the number of answers")
	vf.Assert(c.code == code, "the status of the answer")
	m, ok := c.body.(helpers.ResponseMap)
	if !ok {
		m, ok = c.body.(map[string]interface{})
	}
	vf.Assert(ok && m != nil, "the answer is no object")
	flag, isFlag := m["ok"].(bool)
	vf.Assert(isFlag, "no ok flag")
	vf.Assert(flag == (code == 200), "the ok flag")
	n := 1
	for _, f := range fields {
		if f == "ok" {
			continue
		}
		_, found := m[f]
		vf.Assert(found, "a field is missing in the answer: "+f)
		n++
	}
	vf.Assert(len(m) == n, "further fields in the answer")
	return m
}

func sameStr(x interface{}, want string) bool {
	s, ok := x.(string)
	return ok && vf.StrEq(s, want)
}

var errSend = echo.ErrServiceUnavailable

// anyStatus is any status.
func anyStatus() int { return vf.Int("status", -1<<63, 1<<63-1) }

func newAnswered() *answered {
	c := &answered{}
	if vf.Bool("sending fails") {
		c.err = errSend
	}
	return c
}

func (c *answered) sent(err error) {
	if c.err == nil {
		vf.Assert(err == nil, "an error without cause")
	} else {
		vf.Assert(err == c.err, "the error of sending is lost")
	}
}

// payload is an object of the service.
type payload struct{ m helpers.ResponseMap }

func (p *payload) ToResponseMap() helpers.ResponseMap { return p.m }

// C24_Object: any status and payload.
func C24_Object() {
	names := []string{"a", "message", "ok", "count"}
	m := helpers.ResponseMap{}
	var fields []string
	s, i := vf.Str("text", 3, ""), vf.Int("number", -1<<63, 1<<63-1)
	l := []string{vf.Str("item", 1, ""), "x"}
	for k, f := range names {
		if !vf.Bool("has field") {
			continue
		}
		switch k {
		case 0:
			m[f] = s
		case 1:
			m[f] = i
		case 2:
			m[f] = vf.Bool("payload flag")
		case 3:
			m[f] = l
		}
		fields = append(fields, f)
	}
	code := anyStatus()
	c := newAnswered()
	var err error
	if vf.Choose("how", 2) == 0 {
		err = helpers.JSONResponse(c, code, m)
	} else {
		err = helpers.JSONResponseObject(c, code, &payload{m})
	}
	c.sent(err)
	got := c.object(code, fields...)
	for k, f := range names {
		has := false
		for _, x := range fields {
			has = has || x == f
		}
		if !has {
			continue
		}
		switch k {
		case 0:
			vf.Assert(sameStr(got[f], s), "a text of the payload")
		case 1:
			n, ok := got[f].(int)
			vf.Assert(ok && n == i, "a number of the payload")
		case 3:
			g, ok := got[f].([]string)
			vf.Assert(ok && len(g) == 2 && vf.And(vf.StrEq(g[0], l[0]), g[1] == "x"), "a list of the payload")
		}
	}
	if code == 200 {
		vf.Reach("ok")
	} else {
		vf.Reach("not ok")
	}
}

// C24_Array: any status and collection.
func C24_Array() {
	n := vf.Choose("items", vf.Bound("items", 5, 9))
	var items []helpers.ResponseMap
	var vals, kinds []int
	if vf.Choose("nil", 2) == 0 {
		items = []helpers.ResponseMap{}
	}
	for i := 0; i < n; i++ {
		v, k := vf.Int("value", -1<<63, 1<<63-1), 0
		if i < 3 {
			k = vf.Choose("kind", 3)
		}
		vals, kinds = append(vals, v), append(kinds, k)
		items = append(items, []helpers.ResponseMap{{"v": v, "ok": "item"}, {}, nil}[k])
	}
	code := anyStatus()
	c := newAnswered()
	c.sent(helpers.JSONResponseArray(c, code, items))
	m := c.object(code, "items", "count")
	k, ok := m["count"].(int)
	vf.Assert(ok && k == n, "the count of a collection")
	g, ok := m["items"].([]helpers.ResponseMap)
	vf.Assert(ok && len(g) == n && (g == nil) == (items == nil), "the items of a collection")
	for i := range g {
		if kinds[i] > 0 {
			vf.Assert(len(g[i]) == 0 && (g[i] == nil) == (kinds[i] == 2), "an empty item of a collection")
			continue
		}
		v, ok := g[i]["v"].(int)
		vf.Assert(ok && v == vals[i] && len(g[i]) == 2 && g[i]["ok"] == "item", "an item of a collection")
	}
}

// C24_Error: any status and message of an error.
func C24_Error() {
	code, msg := anyStatus(), vf.Str("message", vf.Choose("length", 4), "")
	e := helpers.NewResponseError(code, msg)
	vf.Assert(e.Code == code && vf.StrEq(e.Message, msg), "the status and message of an error")
	vf.Assert(vf.StrEq(e.Error(), "Response error: "+itoa(code)+" "+msg), "the text of an error")
	c := newAnswered()
	c.sent(helpers.JSONResponseError(c, e))
	m := c.object(code, "message")
	vf.Assert(sameStr(m["message"], msg), "the message of an error")
}

// find is what answers a request, nil when nothing does.
func route(method, path string) echo.HandlerFunc {
	e := echo.New()
	controllers.Setup(e)
	c := e.NewContext(nil, nil)
	e.Router().Find(method, path, c)
	return c.Handler()
}

var paths = []string{"/", "/v1/version", "/v1/systems", "/v1/names"}

// served is what the real service sends; encoding it is not part of what is executed symbolically.
func served(path string) {
	e := echo.New()
	controllers.Setup(e)
	rec := httptest.NewRecorder()
	e.ServeHTTP(rec, httptest.NewRequest("GET", path, nil))
	vf.Assert(rec.Code == 200, "the status that is sent")
	var m map[string]interface{}
	vf.Assert(json.Unmarshal(rec.Body.Bytes(), &m) == nil, "what is sent is no object")
	vf.Assert(m["ok"] == true && len(m) == map[string]int{"/v1/version": 3}[path]+map[bool]int{true: 2}[path != "/v1/version"], "the fields that are sent")
	switch path {
	case "/":
		vf.Assert(m["message"] == "Hello. This is GoBCDiceAPI.", "the message that is sent")
	case "/v1/version":
		vf.Assert(m["api"] == version.API_VERSION && m["bcdice"] == version.BCDICE_VERSION, "the versions that are sent")
	case "/v1/systems":
		g, _ := m["systems"].([]interface{})
		want := list.AvailableGameIDs(true)
		vf.Assert(len(g) == len(want), "the number of systems that are sent")
		for i := range want {
			vf.Assert(g[i] == want[i], "a system that is sent")
		}
	case "/v1/names":
		g, _ := m["names"].([]interface{})
		want := list.AvailableGameInfos(true).Name
		vf.Assert(len(g) == len(want), "the number of names that are sent")
		for i := range want {
			x, _ := g[i].(map[string]interface{})
			vf.Assert(len(x) == 3 && x["system"] == want[i].System && x["name"] == want[i].Name && x["sort_key"] == want[i].SortKey, "a name that is sent")
		}
	}
}

// checkEndpoint checks the answer of an endpoint.
func checkEndpoint(path string, h echo.HandlerFunc) {
	if !vf.Symbolic() {
		served(path)
	}
	c := newAnswered()
	c.sent(h(c))
	switch path {
	case "/":
		m := c.object(200, "message")
		vf.Assert(sameStr(m["message"], "Hello. This is GoBCDiceAPI."), "the message of the root")
	case "/v1/version":
		m := c.object(200, "api", "bcdice")
		vf.Assert(sameStr(m["api"], version.API_VERSION), "the version of the API")
		vf.Assert(sameStr(m["bcdice"], version.BCDICE_VERSION), "the version of BCDice")
	case "/v1/systems":
		m := c.object(200, "systems")
		g, ok := m["systems"].([]string)
		want := list.AvailableGameIDs(true)
		vf.Assert(ok && len(g) == len(want), "the number of systems")
		for i := range want {
			vf.Assert(g[i] == want[i], "a system")
		}
	case "/v1/names":
		m := c.object(200, "names")
		g, ok := m["names"].([]list.SystemInfo)
		want := list.AvailableGameInfos(true).Name
		vf.Assert(ok && len(g) == len(want), "the number of names")
		for i := range want {
			vf.Assert(g[i] == want[i], "a name")
		}
	}
}

// C24_Endpoints: each endpoint, with the systems there are and with further ones, requested several times.
func C24_Endpoints() {
	n := vf.Choose("further systems", 3)
	for i := 0; i < n; i++ {
		x := own{id: []string{"B", "A"}[i], name: []string{"b", "a"}[i], key: []string{"1", "2"}[i]}
		if undo := list.VerifRegister(x.id, func() dicebot.DiceBot { y := x; return &y }); undo != nil {
			defer undo()
		}
	}
	for i := 0; i < 2; i++ {
		path := paths[vf.Choose("path", len(paths))]
		h := route("GET", path)
		vf.Assert(h != nil, "no answer to a request")
		checkEndpoint(path, h)
		checkEndpoint(path, h)
	}
	vf.Assert(len(models.NewSystems().Names) == len(list.AvailableGameIDs(true)), "the systems of the service")
}

// C24_Path: any path; one that is no endpoint is not answered.
func C24_Path() {
	var path string
	switch vf.Choose("shape", 3) {
	case 0:
		path = "/" + vf.Str("path", vf.Choose("length", vf.Bound("length", 6, 9)), "")
	case 1:
		path = paths[vf.Choose("path", len(paths))] + vf.Str("path", 1, "")
	case 2:
		p := []byte(paths[1+vf.Choose("path", len(paths)-1)])
		p[vf.Choose("at", len(p))] = vf.Byte("byte", 0, 255)
		path = string(p)
	}
	method := []string{"GET", "POST", "DELETE", "get"}[vf.Choose("method", 4)]
	vf.ObsS("path", path)
	h := route(method, path)
	if method == "GET" {
		for _, p := range paths {
			if vf.StrEq(p, path) {
				vf.Reach("endpoint")
				checkEndpoint(p, h)
				return
			}
		}
	}
	c := &answered{}
	err := h(c)
	vf.Assert(err != nil && c.times == 0, "an answer to a request that has none")
}

// C24_Validation: messages are recorded for values outside their limits and only for them.
func C24_Validation() {
	e := helpers.NewErrors()
	vf.Assert(!e.HasMessages() && len(e.Messages) == 0, "messages at first")
	want := map[string]string{}
	for i, n := 0, vf.Bound("validations", 3, 5); i < n; i++ {
		f := []string{"a", "b"}[vf.Choose("field", 2)]
		msg := vf.Str("message", 1, "")
		v, lim := vf.Int("value", -1<<63, 1<<63-1), vf.Int("limit", -1<<63, 1<<63-1)
		switch vf.Choose("what", 4) {
		case 0:
			e.ValidateMinValue(v, lim, f, msg)
			if v < lim {
				want[f] = msg
			}
		case 1:
			e.ValidateMaxValue(v, lim, f, msg)
			if v > lim {
				want[f] = msg
			}
		case 2:
			e.Add(f, msg)
			want[f] = msg
		case 3:
			e.Clear()
			want = map[string]string{}
		}
		vf.Assert(len(e.Messages) == len(want) && e.HasMessages() == (len(want) > 0), "the number of messages")
		for f, m := range want {
			vf.Assert(vf.StrEq(e.Messages[f], m), "the message of a field")
		}
	}
}

// noLog stands for the logger of the web framework.
func noLog(prefix string) *log.Logger { return &log.Logger{} }

// noTerminal: the framework does not write to a terminal.
func noTerminal(fd uintptr) bool { return false }

// noHandlerName: the framework keeps a name of each handler.
func noHandlerName(h echo.HandlerFunc) string { return "handler" }

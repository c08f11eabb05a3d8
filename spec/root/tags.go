package coin

import (
	"regexp"
	"sort"
	"strings"
)

var spec_tagREX = regexp.MustCompile(`#(?P<key>[\w-/]+)(:\s*(?P<value>[^,]*[^,\s])\s*(,|$))?`)

var spec_tagREXKey = spec_tagREX.SubexpIndex("key")

var spec_tagREXValue = spec_tagREX.SubexpIndex("value")

func spec_ParseTags(lines ...string) Tags {
	tags := make(Tags)
	for _, line := range lines {
		for _, match := range tagREX.FindAllStringSubmatch(line, -1) {
			key, value := match[tagREXKey], match[tagREXValue]
			tags[key] = value
		}
	}
	if len(tags) == 0 {
		return nil
	}
	return tags
}

func (t Tags) spec_Includes(key string) bool {
	if t == nil {
		return false
	}
	_, ok := t[key]
	return ok
}

func (t Tags) spec_Value(key string) string {
	if t == nil {
		return ""
	}
	return t[key]
}

func (t Tags) spec_Keys() (keys []string) {
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func (t Tags) spec_KeysAndValues() (kvs []string) {
	for k, v := range t {
		if v == "" {
			kvs = append(kvs, k)
		} else {
			kvs = append(kvs, k+":"+v)
		}
	}
	sort.Strings(kvs)
	return kvs
}

func (t Tags) spec_With(t2 Tags) Tags {
	tags := make(Tags)
	for k, v := range t {
		tags[k] = v
	}
	for k, v := range t2 {
		tags[k] = v
	}
	return tags
}

func spec_NewTagMatcher(exp string) *TagMatcher {
	if len(exp) == 0 {
		return nil
	}
	inverted := false
	if exp[0] == '!' {
		inverted = true
		exp = exp[1:]
	}
	parts := strings.SplitN(exp, ":", 2)
	var key, value *regexp.Regexp
	key = regexp.MustCompile("(?i)" + parts[0])
	if len(parts) > 1 {
		value = regexp.MustCompile("(?i)" + parts[1])
	}
	return &TagMatcher{Key: key, Value: value, inverted: inverted}
}

func (m *TagMatcher) spec_Match(tags Tags) bool {
	if tags == nil {
		return false
	}
	for k, v := range tags {
		if match := m.Key.MatchString(k) && (m.Value == nil || m.Value.MatchString(v)); match && !m.inverted || !match && m.inverted {
			return true
		}
	}
	return false
}

// Code generated by tools/gen_c21.py. DO NOT EDIT.
package c21

var (
	tagsNum = []func(){
		tagged[struct {
			A int `json:""`
			B bool
		}](false),
		tagged[struct {
			A int `json:","`
			B bool
		}](false),
		tagged[struct {
			A int `json:",string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty"`
			B bool
		}](false),
		tagged[struct {
			A int `json:",strings"`
			B bool
		}](false),
		tagged[struct {
			A int `json:", string"`
			B bool
		}](false),
		tagged[struct {
			A int `json:",String"`
			B bool
		}](false),
		tagged[struct {
			A int `json:",,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,strings"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string, string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,String"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",strings,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:", string,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",String,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,omitempty,"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,omitempty,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,omitempty,strings"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,omitempty, string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,omitempty,String"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,strings,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string, string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",string,String,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,string,"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,string,strings"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,string, string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,string,String"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,strings,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty, string,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",omitempty,String,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",strings,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",strings,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:", string,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:", string,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",String,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:",String,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"x,"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"x,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"x,strings"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"x, string"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"x,String"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"x,,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,strings"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string, string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,String"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,strings,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x, string,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,String,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,omitempty,"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,omitempty,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,omitempty,strings"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,omitempty, string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,omitempty,String"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,strings,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string, string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,string,String,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,string,"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,string,strings"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,string, string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,string,String"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,strings,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty, string,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,omitempty,String,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,strings,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,strings,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x, string,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x, string,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,String,string,omitempty"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"x,String,omitempty,string"`
			B bool
		}](true),
		dashed[struct {
			A int `json:"-"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"-,"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"-,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"-,omitempty,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"string"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"string,"`
			B bool
		}](false),
		tagged[struct {
			A int `json:"string,string"`
			B bool
		}](true),
		tagged[struct {
			A int `json:"strin,g"`
			B bool
		}](false),
	}
	tagsNo = []func(){
		untagged[struct {
			A []int `json:""`
			B bool
		}](false),
		untagged[struct {
			A []int `json:","`
			B bool
		}](false),
		untagged[struct {
			A []int `json:",string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:",strings"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:", string"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:",String"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:",,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,strings"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string, string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,String"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",strings,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:", string,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",String,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,omitempty,"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,omitempty,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,omitempty,strings"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,omitempty, string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,omitempty,String"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,strings,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string, string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",string,String,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,string,"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,string,strings"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,string, string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,string,String"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,strings,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty, string,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",omitempty,String,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",strings,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",strings,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:", string,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:", string,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",String,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:",String,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"x,"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"x,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"x,strings"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"x, string"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"x,String"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"x,,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,strings"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string, string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,String"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,strings,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x, string,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,String,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,omitempty,"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,omitempty,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,omitempty,strings"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,omitempty, string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,omitempty,String"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,strings,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string, string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,string,String,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,string,"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,string,strings"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,string, string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,string,String"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,strings,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty, string,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,omitempty,String,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,strings,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,strings,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x, string,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x, string,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,String,string,omitempty"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"x,String,omitempty,string"`
			B bool
		}](true),
		dashed[struct {
			A []int `json:"-"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"-,"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"-,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"-,omitempty,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"string"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"string,"`
			B bool
		}](false),
		untagged[struct {
			A []int `json:"string,string"`
			B bool
		}](true),
		untagged[struct {
			A []int `json:"strin,g"`
			B bool
		}](false),
	}
)

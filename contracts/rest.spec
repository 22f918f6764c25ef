package rest

// ---- the service: status of the last reply, and the vector in its body
ghost status Int
ghost reached Bool
ghost asked Int
ufun bodyVec(Int) Int
ufun jsonQuery(Int) Int
ufun bufData(Int) Int
extern http.Client.Get(c, url) (resp, err)
  modifies ghost(status), ghost(reached)
  ensures reached <==> err == nil
  ensures err == nil ==> resp != nil && fresh(resp) && resp.StatusCode == status && resp.Body != nil
extern http.Post(url, contentType, body) (resp, err)
  modifies ghost(status), ghost(reached), ghost(asked)
  ensures isType(body, "*bytes.Buffer") ==> asked == bufData(unbox(body, "*bytes.Buffer"))
  ensures reached <==> err == nil
  ensures err == nil ==> resp != nil && fresh(resp) && resp.StatusCode == status && resp.Body != nil
extern io.ReadCloser.Close(c) (err)
  ignore
extern bytes.NewBuffer(b) (r)
  ensures r != nil && bufData(r) == seq(b)
ghost decodedBad Bool
ghost decodedVec Int
ghost decodedLen Int
extern json.NewDecoder(r) (d)
  ensures d != nil
extern json.Decoder.Decode(d, dst) (err)
  modifies *unbox(dst, "*map[string][]float32"), ghost(decodedBad), ghost(decodedVec), ghost(decodedLen)
  ensures decodedBad <==> err != nil
  ensures err == nil && isType(dst, "*map[string][]float32") ==> decodedVec == seq((*unbox(dst, "*map[string][]float32"))["vector"]) && decodedLen == len((*unbox(dst, "*map[string][]float32"))["vector"])
func NewVectorizer(url) (v, err)
  presumes [errs] ErrServiceUnavailable != nil
  modifies ghost(status), ghost(reached)
  ensures [healthy P16] err == nil <==> reached && status == 200
  ensures [url P16] err == nil ==> v != nil && v.url == url
func Vectorizer.Corpi(v, text) (r, err)
  requires v != nil
  presumes [errs] ErrServiceUnavailable != nil
  modifies ghost(status), ghost(reached), ghost(asked), ghost(ioFailed), ghost(decodedBad), ghost(decodedVec), ghost(decodedLen)
  ensures [answered P16] err == nil ==> reached && status == 200 && !decodedBad
  ensures [vector P16] err == nil ==> r != nil && seq(r.vector) == decodedVec && decodedLen > 0
  ensures [asked P16] err == nil ==> jsonQuery(asked) == seq(text)

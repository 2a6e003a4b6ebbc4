from mutants_conc import M
SE='include/dap/session.h'; TR='include/dap/traits.h'
SENT='''    if (error != nullptr) {
      handler(ResponseOrError<T>(*error));
    } else {
      handler(ResponseOrError<T>(*reinterpret_cast<const T*>(response)));
    }'''
NOCB='''                    if (res.error) {
                      onError(TypeOf<ResponseType>::type(), res.error);
                    } else {
                      onSuccess(TypeOf<ResponseType>::type(), &res.response);
                    }
                  });'''
CB2='''            [onError, onSuccess](const ResponseOrError<ResponseType>& res) {
              if (res.error) {
                onError(TypeOf<ResponseType>::type(), res.error);
              } else {
                onSuccess(TypeOf<ResponseType>::type(), &res.response);
              }
            };'''
CB1='''        CallbackType responseCallback = [onSuccess](const ResponseType& res) {
          onSuccess(TypeOf<ResponseType>::type(), &res);
        };'''
FUT='''                     if (error != nullptr) {
                       promise.set_value(ResponseOrError<Response>(*error));
                     } else {
                       promise.set_value(ResponseOrError<Response>(
                           *reinterpret_cast<const Response*>(result)));
                     }'''
NS='''  if (!sent) {
    promise.set_value(Error("Failed to send request"));
  }
'''
MUTANTS=[
M('fr-resp-ti','C32',(SE,NOCB,NOCB.replace('onError(TypeOf<ResponseType>','onError(TypeOf<RequestType>'))),
M('fr-resp-ti2','C32',(SE,NOCB,NOCB.replace('onSuccess(TypeOf<ResponseType>','onSuccess(TypeOf<RequestType>'))),
M('fr-reg-ti','C32',(SE,'''  using ResponseType = typename RequestType::Response;
  const TypeInfo* typeinfo = TypeOf<RequestType>::type();''','''  using ResponseType = typename RequestType::Response;
  const TypeInfo* typeinfo = TypeOf<ResponseType>::type();''')),
M('fr-both','C32',(SE,NOCB,NOCB.replace('''                    } else {
''','''                    }
                    {
'''))),
M('fr-swapped','C32',(SE,NOCB,NOCB.replace('res.error)','!res.error)',1))),
M('fr-err-dropped','C32',(SE,NOCB,NOCB.replace('''                    if (res.error) {
                      onError(TypeOf<ResponseType>::type(), res.error);
                    } else {''','''                    if (!res.error) {'''))),
M('fr-err-new','C32',(SE,NOCB,NOCB.replace('res.error);','Error("Request failed"));'))),
M('fr-resp-new','C32',(SE,NOCB,NOCB.replace('onSuccess(TypeOf<ResponseType>::type(), &res.response);','ResponseType r; onSuccess(TypeOf<ResponseType>::type(), &r);'))),
M('fr-twice','C32',(SE,'''                        handler(*reinterpret_cast<const RequestType*>(args));
                    if (res.error) {''','''                        handler(*reinterpret_cast<const RequestType*>(args));
                    if (res.error) {
                      res = handler(*reinterpret_cast<const RequestType*>(args));
                    }
                    if (res.error) {''')),
M('fr-copyarg','C32',(SE,'''                        handler(*reinterpret_cast<const RequestType*>(args));''','''                        handler(RequestType());''')),
M('fr-cb-ref','C32',(SE,CB1,CB1.replace('[onSuccess]','[&onSuccess]'))),
M('fr-cb-ref2','C32',(SE,CB2,CB2.replace('[onError, onSuccess]','[&onError, onSuccess]'))),
M('fr-cb-ref3','C32',(SE,CB2,CB2.replace('[onError, onSuccess]','[&]'))),
M('fr-handler-ref','C32',(SE,'  auto cb = [handler](const void* args) {','  auto cb = [&handler](const void* args) {')),
M('fr-handler-ref2','C32',(SE,'  auto cb = [handler](const void* response','  auto cb = [&handler](const void* response')),
M('fr-handler-ref3','C32',(SE,'''                  [handler](const void* args,
                            const RequestHandlerSuccessCallback& onSuccess,
                            const''','''                  [&](const void* args,
                            const RequestHandlerSuccessCallback& onSuccess,
                            const''')),
M('fr-cb2-both','C32',(SE,CB2,CB2.replace('} else {','}\n {'))),
M('fr-cb2-swap','C32',(SE,CB2,CB2.replace('(res.error) {','(!res.error) {'))),
M('fr-cb2-noerr','C32',(SE,CB2,CB2.replace('onError(TypeOf<ResponseType>::type(), res.error);','onSuccess(TypeOf<ResponseType>::type(), &res.response);').replace('[onError, onSuccess]','[onSuccess]'))),
M('fr-cb1-ti','C32',(SE,CB1,CB1.replace('TypeOf<ResponseType>','TypeOf<RequestType>'))),
M('fr-cb1-auto','C32',(SE,CB1,CB1+'\n        if (!responseCallback) { onSuccess(TypeOf<ResponseType>::type(), nullptr); }\n        ResponseType early; (void)early;\n        onSuccess(TypeOf<ResponseType>::type(), &early);')),
M('fr-sent-swap','C32',(SE,SENT,SENT.replace('error != nullptr','error == nullptr').replace('*error','Error()') )),
M('fr-sent-response-first','C32',(SE,SENT,'''    if (response != nullptr) {
      handler(ResponseOrError<T>(*reinterpret_cast<const T*>(response)));
    } else {
      handler(ResponseOrError<T>(Error()));
    }''')),
M('fr-sent-noerr','C32',(SE,SENT,'''    if (error != nullptr) {
      return;
    }
    handler(ResponseOrError<T>(*reinterpret_cast<const T*>(response)));''')),
M('fr-sent-null','C32',(SE,SENT,'''    ResponseOrError<T> res(*reinterpret_cast<const T*>(response));
    if (error != nullptr) {
      res.error = *error;
    }
    handler(res);''')),
M('fr-ev-static','C32',(SE,'''  auto cb = [handler](const void* args) {
    handler(*reinterpret_cast<const T*>(args));''','''  auto cb = [handler](const void* args) {
    static const T ev = *reinterpret_cast<const T*>(args);
    handler(ev);''')),
M('fr-send-ti','C32',(SE,'auto sent = send(TypeOf<T>::type(), TypeOf<Response>::type()','auto sent = send(TypeOf<Response>::type(), TypeOf<Response>::type()')),
M('fr-send-ti2','C32',(SE,'auto sent = send(TypeOf<T>::type(), TypeOf<Response>::type()','auto sent = send(TypeOf<T>::type(), TypeOf<T>::type()')),
M('fr-tr-count','C32',(TR,'    (SignatureOfT<S>::parameter_count == SignatureOfT<F>::parameter_count) &&\n','    (SignatureOfT<S>::parameter_count <= SignatureOfT<F>::parameter_count) &&\n')),
M('fr-tr-last','C32',(TR,'last_matches::value && others_match::value','last_matches::value || others_match::value')),
M('fr-tr-any','C32',(TR,'''  using base = typename std::tuple_element<0, BASES>::type;
  using type = typename std::tuple_element<0, TYPES>::type;
  static constexpr bool value = IsTypeOrDerived<base, type>::value;''','''  static constexpr bool value = true;''')),
M('fr-tr-conv','C32',(TR,'''    std::is_base_of<BASE, typename std::decay<T>::type>::value ||''','''    !std::is_arithmetic<typename std::decay<T>::type>::value ||''')),
# C02: the future given to the sender
M('ft-noset','C02',(SE,NS,'  (void)sent;\n')),
M('ft-set-sent','C02',(SE,NS,NS.replace('!sent','sent'))),
M('ft-always','C02',(SE,NS,'''  promise.set_value(Error(sent ? "" : "Failed to send request"));
''')),
M('ft-err-ignored','C02',(SE,FUT,'''                     if (result != nullptr) {
                       promise.set_value(ResponseOrError<Response>(
                           *reinterpret_cast<const Response*>(result)));
                     }
                     (void)error;''')),
M('ft-err-empty','C02',(SE,FUT,FUT.replace('(*error)','(Error())'))),
M('ft-both','C02',(SE,FUT,'''                     if (error != nullptr) {
                       promise.set_value(ResponseOrError<Response>(*error));
                     }
                     if (result != nullptr || error == nullptr || true) {
                       promise.set_value(ResponseOrError<Response>(Error(error ? error->message.c_str() : "")));
                     }''')),
M('ft-swap','C02',(SE,FUT,FUT.replace('error != nullptr','error == nullptr'))),
M('ft-other','C02',(SE,'                   [=](const void* result, const Error* error) {\n','                   [=](const void* result, const Error* error) {\n                     dap::promise<ResponseOrError<Response>> promise;\n')),
M('ft-emptymsg','C02',(SE,'Error("Failed to send request")','Error("")')),
M('ft-future-other','C02',(SE,'''  return promise.get_future();
}

template <typename T, typename>
void Session::send''','''  dap::promise<ResponseOrError<Response>> other;
  return sent ? promise.get_future() : other.get_future();
}

template <typename T, typename>
void Session::send''')),
]
NEUTRAL=[
M('nf-helper','',(SE,NOCB,'''                    answer<ResponseType>(res, onSuccess, onError);
                  });'''),(SE,CB2,'''            [onError, onSuccess](const ResponseOrError<ResponseType>& res) {
              answer<ResponseType>(res, onSuccess, onError);
            };'''),(SE,'''template <typename F, typename RequestType>
Session::IsRequestHandlerWithoutCallback<F> Session::registerHandler(''','''template <typename R>
void Session::answer(const ResponseOrError<R>& res,
                     const RequestHandlerSuccessCallback& onSuccess,
                     const RequestHandlerErrorCallback& onError) {
  const TypeInfo* ti = TypeOf<R>::type();
  if (!res.error) {
    onSuccess(ti, &res.response);
    return;
  }
  onError(ti, res.error);
}

template <typename F, typename RequestType>
Session::IsRequestHandlerWithoutCallback<F> Session::registerHandler('''),(SE,'''  virtual bool send(const TypeInfo* eventTypeInfo, const void* event) = 0;
};''','''  virtual bool send(const TypeInfo* eventTypeInfo, const void* event) = 0;

 private:
  template <typename R>
  static void answer(const ResponseOrError<R>& res,
                     const RequestHandlerSuccessCallback& onSuccess,
                     const RequestHandlerErrorCallback& onError);
};''')),
M('nf-static-cast','',(SE,'reinterpret_cast<const','static_cast<const'),n=9),
M('nf-local-req','',(SE,'''        handler(*reinterpret_cast<const RequestType*>(args), responseCallback);''','''        auto* req = reinterpret_cast<const RequestType*>(args);
        handler(*req, responseCallback);'''),n=2),
M('nf-sent-early','',(SE,SENT,'''    if (error == nullptr) {
      handler(ResponseOrError<T>(*reinterpret_cast<const T*>(response)));
      return;
    }
    handler(ResponseOrError<T>(*error));''')),
M('nf-sent-value','',(SE,SENT,'''    ResponseOrError<T> res = (error != nullptr) ? ResponseOrError<T>(*error) : ResponseOrError<T>(*reinterpret_cast<const T*>(response));
    handler(res);''')),
M('nf-future-first','',(SE,'''  auto sent = send(TypeOf<T>::type(), TypeOf<Response>::type(), &request,''','''  auto future = promise.get_future();
  auto sent = send(TypeOf<T>::type(), TypeOf<Response>::type(), &request,'''),(SE,'''  return promise.get_future();
}

template <typename T, typename>
void Session::send''','''  return future;
}

template <typename T, typename>
void Session::send''')),
M('nf-capture-named','',(SE,'[=](const void* result, const Error* error)','[promise](const void* result, const Error* error)')),
M('nf-cb-handler','',(SE,'''  auto sent = send(TypeOf<T>::type(), TypeOf<Response>::type(), &request,
                   [=](const void* result, const Error* error) {''','''  const TypeInfo* requestType = TypeOf<T>::type();
  const TypeInfo* responseType = TypeOf<Response>::type();
  GenericResponseHandler onResponse =
                   [=](const void* result, const Error* error) {'''),(SE,FUT+'\n                   });',FUT+'''
                   };
  bool sent = send(requestType, responseType, &request, onResponse);''')),
M('nf-set-assign','',(SE,FUT,'''                     if (error) {
                       promise.set_value(*error);
                       return;
                     }
                     auto* response = reinterpret_cast<const Response*>(result);
                     promise.set_value(*response);''')),
M('nf-inline-reg','',(SE,'''  const TypeInfo* typeinfo = TypeOf<T>::type();
  registerHandler(typeinfo, cb);''','''  registerHandler(TypeOf<T>::type(), cb);'''),n=2),
M('nf-generic-named','',(SE,'''  registerHandler(typeinfo,
                  [handler](const void* args,''','''  GenericRequestHandler wrapper = (
                  [handler](const void* args,'''),(SE,NOCB,NOCB+'\n  registerHandler(typeinfo, wrapper);')),
M('nf-tr-decay','',(TR,'''using IsTypeOrDerived = std::integral_constant<
    bool,
    std::is_base_of<BASE, typename std::decay<T>::type>::value ||
        std::is_same<BASE, typename std::decay<T>::type>::value>;''','''using IsTypeOrDerived =
    std::integral_constant<bool,
                           std::is_base_of<BASE, typename std::decay<T>::type>::value ||
                               std::is_same<typename std::decay<T>::type, BASE>::value>;''')),
]

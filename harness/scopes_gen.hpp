// Generated by gen/scopes.py 7 8
#pragma once
inline void program0(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::delete_<"/v1/r1/">(handler(2));
  auto v1 = web::route::patch<"/x-y/r3/">(handler(4));
  auto v2 = web::route::get<"/{p5}/r6">(handler(7));
  auto v3 = v2.use_state(state<2>(1));
  auto v4 = web::route::patch<"/a/a/r8">(handler(9));
  auto v5 = v4.use_state(state<2>(2));
  auto v6 = web::route::get<"/{p10}/b/r11">(handler(12));
  auto v7 = v6.use(mw<0>(1));
  auto v8 = v7.use_state(state<1>(3));
  auto v9 = web::scope<"/{p13}">();
  auto v10 = v9.use_state(state<0>(4));
  auto v11 = v10.serve(v8);
  auto v12 = v11.serve(v7);
  auto v13 = web::scope<"/api">();
  auto v14 = v13.use_state(state<0>(5));
  auto v15 = v14.use(mw<1>(2));
  auto v16 = v15.use(mw<0>(3));
  auto v17 = v15.serve(v5);
  auto v18 = web::scope<"/x-y">();
  auto v19 = v18.use_state(state<1>(6));
  auto v20 = v19.use(mw<1>(4));
  auto v21 = v20.serve(v17);
  auto v22 = web::scope<"/v1">();
  auto v23 = v22.use_state(state<2>(7));
  auto v24 = v23.serve(v11);
  auto v25 = v24.serve(v12);
  auto v26 = v25.serve(v2);
  auto v27 = web::scope<"/v1">();
  auto v28 = v27.serve(v24);
  auto v29 = v28.serve(v12);
  auto v30 = web::scope<"/api/api">();
  auto v31 = v30.use_state(state<0>(8));
  auto v32 = v31.use(mw<0>(5));
  auto v33 = v32.serve(v11);
  auto v34 = v33.serve(v29);
  b.serve(v3);
  e.push_back({ "/{p5}/r6", "get", 7, {  }, { { 2, 1 } } });
  b.serve(v6);
  e.push_back({ "/{p10}/b/r11", "get", 12, {  }, {  } });
  b.serve(v4);
  e.push_back({ "/a/a/r8", "patch", 9, {  }, {  } });
  b.serve(v11);
  e.push_back({ "/{p13}/{p10}/b/r11", "get", 12, { 1 }, { { 1, 3 }, { 0, 4 } } });
  b.serve(v28);
  e.push_back({ "/v1/v1/{p13}/{p10}/b/r11", "get", 12, { 1 }, { { 1, 3 }, { 0, 4 }, { 2, 7 } } });
  b.serve(v24);
  e.push_back({ "/v1/{p13}/{p10}/b/r11", "get", 12, { 1 }, { { 1, 3 }, { 0, 4 }, { 2, 7 } } });
  b.serve(v0);
  e.push_back({ "/v1/r1/", "delete_", 2, {  }, {  } });
  b.serve(v21);
  e.push_back({ "/x-y/api/a/a/r8", "patch", 9, { 4, 2 }, { { 2, 2 }, { 0, 5 }, { 1, 6 } } });
  b.serve(v33);
  e.push_back({ "/api/api/{p13}/{p10}/b/r11", "get", 12, { 5, 1 }, { { 1, 3 }, { 0, 4 }, { 0, 8 } } });
  b.serve(v1);
  e.push_back({ "/x-y/r3/", "patch", 4, {  }, {  } });
  b.serve(v17);
  e.push_back({ "/api/a/a/r8", "patch", 9, { 2 }, { { 2, 2 }, { 0, 5 } } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
  (void)v33;
  (void)v34;
}
inline void program1(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::put<"/x-y/r14">(handler(15));
  auto v1 = v0.use(mw<0>(6));
  auto v2 = v1.use(mw<1>(7));
  auto v3 = v2.use(mw<0>(8));
  auto v4 = web::route::get<"/v1/r16">(handler(17));
  auto v5 = v4.use_state(state<2>(9));
  auto v6 = web::route::any<"/a/api/r18">(handler(19));
  auto v7 = v6.use_state(state<0>(10));
  auto v8 = web::route::post<"/x-y/r20">(handler(21));
  auto v9 = v8.use_state(state<2>(11));
  auto v10 = web::route::put<"/api/r22">(handler(23));
  auto v11 = v10.use(mw<1>(9));
  auto v12 = v11.use_state(state<1>(12));
  auto v13 = web::scope<"/{p24}">();
  auto v14 = v13.serve(v7);
  auto v15 = v14.serve(v3);
  auto v16 = web::scope<"/{p25}">();
  auto v17 = v16.use_state(state<2>(13));
  auto v18 = v16.use(mw<1>(10));
  auto v19 = v16.use(mw<0>(11));
  auto v20 = v16.serve(v14);
  auto v21 = v20.serve(v15);
  auto v22 = web::scope<"">();
  auto v23 = v22.use(mw<0>(12));
  auto v24 = v23.use(mw<0>(13));
  auto v25 = v24.serve(v2);
  auto v26 = v25.serve(v9);
  auto v27 = v26.serve(v10);
  auto v28 = web::scope<"/{p26}">();
  auto v29 = v28.use(mw<0>(14));
  auto v30 = v28.use_state(state<0>(14));
  auto v31 = v30.use_state(state<1>(15));
  auto v32 = v30.serve(v3);
  auto v33 = v32.serve(v15);
  auto v34 = web::scope<"/x-y">();
  auto v35 = v34.use(mw<1>(15));
  auto v36 = v34.serve(v5);
  auto v37 = web::scope<"/x-y/x-y">();
  auto v38 = v37.use_state(state<2>(16));
  auto v39 = v38.serve(v9);
  auto v40 = v39.serve(v20);
  auto v41 = v40.serve(v32);
  b.serve(v36);
  e.push_back({ "/x-y/v1/r16", "get", 17, {  }, { { 2, 9 } } });
  b.serve(v41);
  e.push_back({ "/x-y/x-y/x-y/r20", "post", 21, {  }, { { 2, 11 }, { 2, 16 } } });
  e.push_back({ "/x-y/x-y/{p25}/{p24}/a/api/r18", "any", 19, {  }, { { 0, 10 }, { 2, 16 } } });
  e.push_back({ "/x-y/x-y/{p26}/x-y/r14", "put", 15, { 6, 7, 8 }, { { 0, 14 }, { 2, 16 } } });
  b.serve(v32);
  e.push_back({ "/{p26}/x-y/r14", "put", 15, { 6, 7, 8 }, { { 0, 14 } } });
  b.serve(v25);
  e.push_back({ "/x-y/r14", "put", 15, { 12, 13, 6, 7 }, {  } });
  b.serve(v8);
  e.push_back({ "/x-y/r20", "post", 21, {  }, {  } });
  b.serve(v11);
  e.push_back({ "/api/r22", "put", 23, { 9 }, {  } });
  b.serve(v5);
  e.push_back({ "/v1/r16", "get", 17, {  }, { { 2, 9 } } });
  b.serve(v14);
  e.push_back({ "/{p24}/a/api/r18", "any", 19, {  }, { { 0, 10 } } });
  b.serve(v7);
  e.push_back({ "/a/api/r18", "any", 19, {  }, { { 0, 10 } } });
  b.serve(v20);
  e.push_back({ "/{p25}/{p24}/a/api/r18", "any", 19, {  }, { { 0, 10 } } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
  (void)v33;
  (void)v34;
  (void)v35;
  (void)v36;
  (void)v37;
  (void)v38;
  (void)v39;
  (void)v40;
  (void)v41;
}
inline void program2(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::post<"/a/r27">(handler(28));
  auto v1 = v0.use_state(state<0>(17));
  auto v2 = web::route::any<"/b/{p29}/r30/#w31">(handler(32));
  auto v3 = web::route::post<"/b/r33">(handler(34));
  auto v4 = v3.use_state(state<1>(18));
  auto v5 = v4.use(mw<1>(16));
  auto v6 = web::route::get<"/{p35}/r36">(handler(37));
  auto v7 = v6.use(mw<1>(17));
  auto v8 = v7.use(mw<0>(18));
  auto v9 = web::route::post<"/{p38}/r39">(handler(40));
  auto v10 = v9.use_state(state<1>(19));
  auto v11 = web::scope<"/x-y">();
  auto v12 = v11.use_state(state<2>(20));
  auto v13 = v12.use(mw<0>(19));
  auto v14 = v13.use(mw<0>(20));
  auto v15 = v14.serve(v1);
  auto v16 = v15.serve(v9);
  auto v17 = web::scope<"/{p41}">();
  auto v18 = v17.serve(v16);
  auto v19 = v18.serve(v4);
  auto v20 = v19.serve(v0);
  auto v21 = web::scope<"/b">();
  auto v22 = v21.use(mw<0>(21));
  auto v23 = v21.serve(v3);
  auto v24 = v23.serve(v20);
  auto v25 = web::scope<"/{p42}">();
  auto v26 = v25.serve(v15);
  auto v27 = v26.serve(v8);
  auto v28 = web::scope<"/b">();
  auto v29 = v28.use(mw<1>(22));
  auto v30 = v29.use_state(state<1>(21));
  auto v31 = v29.serve(v3);
  auto v32 = v31.serve(v18);
  auto v33 = web::scope<"/a/a">();
  auto v34 = v33.serve(v15);
  auto v35 = v34.serve(v26);
  b.serve(v1);
  e.push_back({ "/a/r27", "post", 28, {  }, { { 0, 17 } } });
  b.serve(v32);
  e.push_back({ "/b/b/r33", "post", 34, { 22 }, {  } });
  e.push_back({ "/b/{p41}/x-y/a/r27", "post", 28, { 22, 19, 20 }, { { 0, 17 }, { 2, 20 } } });
  e.push_back({ "/b/{p41}/x-y/{p38}/r39", "post", 40, { 22, 19, 20 }, { { 2, 20 } } });
  b.serve(v8);
  e.push_back({ "/{p35}/r36", "get", 37, { 17, 18 }, {  } });
  b.serve(v35);
  e.push_back({ "/a/a/x-y/a/r27", "post", 28, { 19, 20 }, { { 0, 17 }, { 2, 20 } } });
  e.push_back({ "/a/a/{p42}/x-y/a/r27", "post", 28, { 19, 20 }, { { 0, 17 }, { 2, 20 } } });
  b.serve(v15);
  e.push_back({ "/x-y/a/r27", "post", 28, { 19, 20 }, { { 0, 17 }, { 2, 20 } } });
  b.serve(v10);
  e.push_back({ "/{p38}/r39", "post", 40, {  }, { { 1, 19 } } });
  b.serve(v27);
  e.push_back({ "/{p42}/x-y/a/r27", "post", 28, { 19, 20 }, { { 0, 17 }, { 2, 20 } } });
  e.push_back({ "/{p42}/{p35}/r36", "get", 37, { 17, 18 }, {  } });
  b.serve(v3);
  e.push_back({ "/b/r33", "post", 34, {  }, {  } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
  (void)v33;
  (void)v34;
  (void)v35;
}
inline void program3(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::any<"/a/r43">(handler(44));
  auto v1 = v0.use(mw<0>(23));
  auto v2 = web::route::put<"/x-y/api/r45">(handler(46));
  auto v3 = v2.use_state(state<0>(22));
  auto v4 = v2.use_state(state<2>(23));
  auto v5 = web::route::get<"/x-y/r47">(handler(48));
  auto v6 = v5.use_state(state<2>(24));
  auto v7 = v6.use_state(state<0>(25));
  auto v8 = v7.use(mw<1>(24));
  auto v9 = web::route::delete_<"/x-y/r49/#w50">(handler(51));
  auto v10 = v9.use(mw<0>(25));
  auto v11 = web::route::delete_<"/x-y/r52/">(handler(53));
  auto v12 = web::scope<"/{p54}/{p55}">();
  auto v13 = v12.use(mw<0>(26));
  auto v14 = v13.serve(v7);
  auto v15 = v14.serve(v6);
  auto v16 = web::scope<"">();
  auto v17 = v16.use_state(state<0>(26));
  auto v18 = v17.use(mw<1>(27));
  auto v19 = v18.use_state(state<2>(27));
  auto v20 = v19.serve(v15);
  auto v21 = web::scope<"/a">();
  auto v22 = v21.use_state(state<1>(28));
  auto v23 = v22.serve(v15);
  auto v24 = v23.serve(v8);
  auto v25 = web::scope<"/a">();
  auto v26 = v25.use(mw<1>(28));
  auto v27 = v26.use_state(state<1>(29));
  auto v28 = v26.serve(v15);
  auto v29 = v28.serve(v14);
  auto v30 = v29.serve(v24);
  auto v31 = web::scope<"/b">();
  auto v32 = v31.use_state(state<2>(30));
  auto v33 = v32.use(mw<1>(29));
  auto v34 = v33.use_state(state<1>(31));
  auto v35 = v34.serve(v23);
  auto v36 = v35.serve(v6);
  auto v37 = web::scope<"/v1">();
  auto v38 = v37.use(mw<0>(30));
  auto v39 = v37.serve(v28);
  b.serve(v1);
  e.push_back({ "/a/r43", "any", 44, { 23 }, {  } });
  b.serve(v3);
  e.push_back({ "/x-y/api/r45", "put", 46, {  }, { { 0, 22 } } });
  b.serve(v6);
  e.push_back({ "/x-y/r47", "get", 48, {  }, { { 2, 24 } } });
  b.serve(v10);
  e.push_back({ "/x-y/r49/#w50", "delete_", 51, { 25 }, {  } });
  b.serve(v14);
  e.push_back({ "/{p54}/{p55}/x-y/r47", "get", 48, { 26 }, { { 0, 25 }, { 2, 24 } } });
  b.serve(v11);
  e.push_back({ "/x-y/r52/", "delete_", 53, {  }, {  } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
  (void)v33;
  (void)v34;
  (void)v35;
  (void)v36;
  (void)v37;
  (void)v38;
  (void)v39;
}
inline void program4(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::get<"/b/r56">(handler(57));
  auto v1 = v0.use(mw<1>(31));
  auto v2 = v1.use(mw<1>(32));
  auto v3 = v2.use_state(state<1>(32));
  auto v4 = web::route::any<"/x-y/r58">(handler(59));
  auto v5 = v4.use(mw<1>(33));
  auto v6 = web::route::post<"/v1/r60">(handler(61));
  auto v7 = web::route::delete_<"/a/r62">(handler(63));
  auto v8 = v7.use_state(state<2>(33));
  auto v9 = web::route::get<"/x-y/r64">(handler(65));
  auto v10 = v9.use(mw<1>(34));
  auto v11 = v10.use_state(state<2>(34));
  auto v12 = web::scope<"/{p66}">();
  auto v13 = v12.use(mw<1>(35));
  auto v14 = v13.serve(v0);
  auto v15 = v14.serve(v2);
  auto v16 = web::scope<"">();
  auto v17 = v16.use_state(state<1>(35));
  auto v18 = v16.use(mw<0>(36));
  auto v19 = v18.serve(v3);
  auto v20 = v19.serve(v3);
  auto v21 = v20.serve(v19);
  auto v22 = web::scope<"">();
  auto v23 = v22.use(mw<0>(37));
  auto v24 = v23.use(mw<0>(38));
  auto v25 = v24.serve(v10);
  auto v26 = v25.serve(v20);
  auto v27 = web::scope<"">();
  auto v28 = v27.serve(v21);
  auto v29 = web::scope<"/b">();
  auto v30 = v29.use(mw<1>(39));
  auto v31 = v29.use(mw<1>(40));
  auto v32 = v31.use_state(state<1>(36));
  auto v33 = v32.serve(v26);
  auto v34 = v33.serve(v4);
  auto v35 = web::scope<"">();
  auto v36 = v35.serve(v26);
  auto v37 = v36.serve(v20);
  b.serve(v4);
  e.push_back({ "/x-y/r58", "any", 59, {  }, {  } });
  b.serve(v8);
  e.push_back({ "/a/r62", "delete_", 63, {  }, { { 2, 33 } } });
  b.serve(v25);
  e.push_back({ "/x-y/r64", "get", 65, { 37, 38, 34 }, {  } });
  b.serve(v3);
  e.push_back({ "/b/r56", "get", 57, { 31, 32 }, { { 1, 32 } } });
  b.serve(v6);
  e.push_back({ "/v1/r60", "post", 61, {  }, {  } });
  b.serve(v14);
  e.push_back({ "/{p66}/b/r56", "get", 57, { 35 }, {  } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
  (void)v33;
  (void)v34;
  (void)v35;
  (void)v36;
  (void)v37;
}
inline void program5(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::patch<"/{p67}/r68/#w69">(handler(70));
  auto v1 = web::route::post<"/{p71}/api/r72">(handler(73));
  auto v2 = v1.use(mw<1>(41));
  auto v3 = web::route::put<"/api/v1/r74/">(handler(75));
  auto v4 = web::route::patch<"/a/r76">(handler(77));
  auto v5 = v4.use_state(state<1>(37));
  auto v6 = web::route::delete_<"/{p78}/r79">(handler(80));
  auto v7 = v6.use(mw<1>(42));
  auto v8 = v7.use(mw<1>(43));
  auto v9 = web::scope<"/{p81}/{p82}">();
  auto v10 = v9.serve(v4);
  auto v11 = web::scope<"/x-y">();
  auto v12 = v11.use(mw<1>(44));
  auto v13 = v11.serve(v10);
  auto v14 = web::scope<"/{p83}">();
  auto v15 = v14.use_state(state<2>(38));
  auto v16 = v14.use(mw<0>(45));
  auto v17 = v16.use_state(state<1>(39));
  auto v18 = v16.serve(v6);
  auto v19 = v18.serve(v2);
  auto v20 = v19.serve(v2);
  auto v21 = web::scope<"">();
  auto v22 = v21.use_state(state<0>(40));
  auto v23 = v22.serve(v7);
  auto v24 = v23.serve(v20);
  auto v25 = web::scope<"">();
  auto v26 = v25.use(mw<0>(46));
  auto v27 = v26.use(mw<0>(47));
  auto v28 = v27.use_state(state<0>(41));
  auto v29 = v27.serve(v4);
  auto v30 = web::scope<"">();
  auto v31 = v30.use(mw<1>(48));
  auto v32 = v30.serve(v18);
  auto v33 = v32.serve(v19);
  auto v34 = v33.serve(v1);
  b.serve(v2);
  e.push_back({ "/{p71}/api/r72", "post", 73, { 41 }, {  } });
  b.serve(v10);
  e.push_back({ "/{p81}/{p82}/a/r76", "patch", 77, {  }, {  } });
  b.serve(v4);
  e.push_back({ "/a/r76", "patch", 77, {  }, {  } });
  b.serve(v19);
  e.push_back({ "/{p83}/{p78}/r79", "delete_", 80, { 45 }, {  } });
  e.push_back({ "/{p83}/{p71}/api/r72", "post", 73, { 45, 41 }, {  } });
  b.serve(v0);
  e.push_back({ "/{p67}/r68/#w69", "patch", 70, {  }, {  } });
  b.serve(v7);
  e.push_back({ "/{p78}/r79", "delete_", 80, { 42 }, {  } });
  b.serve(v13);
  e.push_back({ "/x-y/{p81}/{p82}/a/r76", "patch", 77, {  }, {  } });
  b.serve(v3);
  e.push_back({ "/api/v1/r74/", "put", 75, {  }, {  } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
  (void)v33;
  (void)v34;
}
inline void program6(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::post<"/{p84}/r85">(handler(86));
  auto v1 = v0.use_state(state<2>(42));
  auto v2 = v1.use(mw<0>(49));
  auto v3 = v2.use(mw<0>(50));
  auto v4 = web::route::post<"/api/{p87}/r88">(handler(89));
  auto v5 = v4.use(mw<0>(51));
  auto v6 = web::route::post<"/api/r90">(handler(91));
  auto v7 = web::route::any<"/a/r92">(handler(93));
  auto v8 = v7.use(mw<0>(52));
  auto v9 = v8.use(mw<1>(53));
  auto v10 = v9.use(mw<1>(54));
  auto v11 = web::route::get<"/x-y/r94">(handler(95));
  auto v12 = v11.use_state(state<1>(43));
  auto v13 = web::scope<"/v1">();
  auto v14 = v13.use(mw<0>(55));
  auto v15 = v14.serve(v7);
  auto v16 = v15.serve(v12);
  auto v17 = web::scope<"/{p96}">();
  auto v18 = v17.serve(v6);
  auto v19 = v18.serve(v16);
  auto v20 = web::scope<"/{p97}">();
  auto v21 = v20.use(mw<0>(56));
  auto v22 = v20.serve(v16);
  auto v23 = web::scope<"/{p98}">();
  auto v24 = v23.serve(v22);
  auto v25 = v24.serve(v6);
  auto v26 = web::scope<"/b">();
  auto v27 = v26.use(mw<0>(57));
  auto v28 = v26.use(mw<0>(58));
  auto v29 = v28.use_state(state<0>(44));
  auto v30 = v29.serve(v24);
  auto v31 = web::scope<"/{p99}">();
  auto v32 = v31.use_state(state<2>(45));
  auto v33 = v32.use_state(state<0>(46));
  auto v34 = v33.use(mw<1>(59));
  auto v35 = v34.serve(v6);
  auto v36 = v35.serve(v24);
  b.serve(v19);
  e.push_back({ "/{p96}/api/r90", "post", 91, {  }, {  } });
  e.push_back({ "/{p96}/v1/a/r92", "any", 93, { 55 }, {  } });
  e.push_back({ "/{p96}/v1/x-y/r94", "get", 95, { 55 }, { { 1, 43 } } });
  b.serve(v30);
  e.push_back({ "/b/{p98}/{p97}/v1/a/r92", "any", 93, { 58, 55 }, { { 0, 44 } } });
  e.push_back({ "/b/{p98}/{p97}/v1/x-y/r94", "get", 95, { 58, 55 }, { { 1, 43 }, { 0, 44 } } });
  b.serve(v1);
  e.push_back({ "/{p84}/r85", "post", 86, {  }, { { 2, 42 } } });
  b.serve(v7);
  e.push_back({ "/a/r92", "any", 93, {  }, {  } });
  b.serve(v11);
  e.push_back({ "/x-y/r94", "get", 95, {  }, {  } });
  b.serve(v15);
  e.push_back({ "/v1/a/r92", "any", 93, { 55 }, {  } });
  b.serve(v5);
  e.push_back({ "/api/{p87}/r88", "post", 89, { 51 }, {  } });
  b.serve(v6);
  e.push_back({ "/api/r90", "post", 91, {  }, {  } });
  b.serve(v24);
  e.push_back({ "/{p98}/{p97}/v1/a/r92", "any", 93, { 55 }, {  } });
  e.push_back({ "/{p98}/{p97}/v1/x-y/r94", "get", 95, { 55 }, { { 1, 43 } } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
  (void)v33;
  (void)v34;
  (void)v35;
  (void)v36;
}
inline void program7(web::http_server::builder& b, std::vector<expected_route>& e)
{
  auto v0 = web::route::get<"/v1/r100">(handler(101));
  auto v1 = web::route::post<"/a/{p102}/r103">(handler(104));
  auto v2 = v1.use(mw<1>(60));
  auto v3 = web::route::patch<"/{p105}/r106">(handler(107));
  auto v4 = v3.use(mw<1>(61));
  auto v5 = web::route::post<"/b/r108/">(handler(109));
  auto v6 = v5.use(mw<1>(62));
  auto v7 = v6.use_state(state<0>(47));
  auto v8 = web::route::put<"/{p110}/r111">(handler(112));
  auto v9 = v8.use_state(state<2>(48));
  auto v10 = v9.use_state(state<1>(49));
  auto v11 = web::scope<"/api/{p113}">();
  auto v12 = v11.use_state(state<1>(50));
  auto v13 = v12.serve(v7);
  auto v14 = web::scope<"/{p114}">();
  auto v15 = v14.serve(v4);
  auto v16 = v15.serve(v13);
  auto v17 = web::scope<"">();
  auto v18 = v17.serve(v16);
  auto v19 = v18.serve(v6);
  auto v20 = web::scope<"/b">();
  auto v21 = v20.use(mw<0>(63));
  auto v22 = v21.use(mw<1>(64));
  auto v23 = v22.serve(v6);
  auto v24 = v23.serve(v9);
  auto v25 = web::scope<"/{p115}">();
  auto v26 = v25.use_state(state<0>(51));
  auto v27 = v26.use_state(state<1>(52));
  auto v28 = v27.serve(v4);
  auto v29 = v28.serve(v16);
  auto v30 = web::scope<"">();
  auto v31 = v30.serve(v9);
  auto v32 = v31.serve(v29);
  b.serve(v24);
  e.push_back({ "/b/b/r108/", "post", 109, { 63, 64, 62 }, {  } });
  e.push_back({ "/b/{p110}/r111", "put", 112, { 63, 64 }, { { 2, 48 } } });
  b.serve(v31);
  e.push_back({ "/{p110}/r111", "put", 112, {  }, { { 2, 48 } } });
  b.serve(v3);
  e.push_back({ "/{p105}/r106", "patch", 107, {  }, {  } });
  b.serve(v13);
  e.push_back({ "/api/{p113}/b/r108/", "post", 109, { 62 }, { { 0, 47 }, { 1, 50 } } });
  b.serve(v1);
  e.push_back({ "/a/{p102}/r103", "post", 104, {  }, {  } });
  b.serve(v19);
  e.push_back({ "/{p114}/{p105}/r106", "patch", 107, { 61 }, {  } });
  e.push_back({ "/{p114}/api/{p113}/b/r108/", "post", 109, { 62 }, { { 0, 47 }, { 1, 50 } } });
  e.push_back({ "/b/r108/", "post", 109, { 62 }, {  } });
  b.serve(v0);
  e.push_back({ "/v1/r100", "get", 101, {  }, {  } });
  (void)0;
  (void)v0;
  (void)v1;
  (void)v2;
  (void)v3;
  (void)v4;
  (void)v5;
  (void)v6;
  (void)v7;
  (void)v8;
  (void)v9;
  (void)v10;
  (void)v11;
  (void)v12;
  (void)v13;
  (void)v14;
  (void)v15;
  (void)v16;
  (void)v17;
  (void)v18;
  (void)v19;
  (void)v20;
  (void)v21;
  (void)v22;
  (void)v23;
  (void)v24;
  (void)v25;
  (void)v26;
  (void)v27;
  (void)v28;
  (void)v29;
  (void)v30;
  (void)v31;
  (void)v32;
}
using program = void (*)(web::http_server::builder&, std::vector<expected_route>&);
inline const program programs[] = { program0, program1, program2, program3, program4, program5, program6, program7 };

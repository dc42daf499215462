// Structured bindings of more groups than regex_probe.hpp spells out: which numbers of groups are covered is what the
// patterns of corpora.stress() need. Made by: for n in 6..20, 24, 26, 33, 34, 64, 65, 70.
        else if constexpr (m.groups == 6)
        {
            auto [v0, v1, v2, v3, v4, v5, v6] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6};
        }
        else if constexpr (m.groups == 7)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7};
        }
        else if constexpr (m.groups == 8)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8};
        }
        else if constexpr (m.groups == 9)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9};
        }
        else if constexpr (m.groups == 10)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10};
        }
        else if constexpr (m.groups == 11)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11};
        }
        else if constexpr (m.groups == 12)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12};
        }
        else if constexpr (m.groups == 13)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13};
        }
        else if constexpr (m.groups == 14)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14};
        }
        else if constexpr (m.groups == 15)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15};
        }
        else if constexpr (m.groups == 16)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16};
        }
        else if constexpr (m.groups == 17)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17};
        }
        else if constexpr (m.groups == 18)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18};
        }
        else if constexpr (m.groups == 19)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19};
        }
        else if constexpr (m.groups == 20)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20};
        }
        else if constexpr (m.groups == 24)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24};
        }
        else if constexpr (m.groups == 26)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26};
        }
        else if constexpr (m.groups == 33)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33};
        }
        else if constexpr (m.groups == 34)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34};
        }
        else if constexpr (m.groups == 64)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45,
                v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45,
                v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64};
        }
        else if constexpr (m.groups == 65)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45,
                v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64, v65] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45,
                v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64, v65};
        }
        else if constexpr (m.groups == 70)
        {
            auto [v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45,
                v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64, v65, v66, v67,
                v68, v69, v70] = m(s);
            o = {v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,
                v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45,
                v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64, v65, v66, v67,
                v68, v69, v70};
        }

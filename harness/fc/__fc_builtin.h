/* stub used only to enumerate obligations with gcc -E */

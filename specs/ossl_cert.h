/* Content of certificates (ghost): what each library call put there. */
struct certinfo;
enum { T_UNSET, T_ADJ, T_STRING, T_OTHER };
struct v_time { ASN1_STRING s; int kind; long adj; const char *str; bool own; };
struct v_int { ASN1_STRING s; bool set; uint64_t v; };
struct X509_extension_st { int nid; const char *value; };
/* a name: either a list's pairs (tag), another certificate's subject or issuer
 * (cert), or the pairs themselves in bounded builds */
struct nameinfo { int how; const void *tag; struct prov cert; int n; const char *k[NST]; const char *v[NST]; bool exact; };
enum { N_UNSET, N_LIST, N_PAIRS, N_SUBJECT_OF, N_ISSUER_OF };
struct X509_name_st { int ref; bool own; struct nameinfo i; };
enum { M_VERSION = 1, M_SERIAL = 2, M_NB = 4, M_NA = 8, M_ISSUER = 16, M_SUBJECT = 32, M_PUBKEY = 64, M_EXT = 128, M_OTHER = 256 };
struct certinfo {
  unsigned mods;           /* fields set since the certificate was made or decoded */
  long version;
  bool sn_set; uint64_t sn;
  struct v_time nb, na;
  struct X509_name_st issuer, subject;
  struct prov pub; int pubtype;
  int next; struct X509_extension_st ext;
  bool signed_, sha256, verified; struct prov skey; int skeytype;
};
static struct certinfo g_i2d_c; /* content of the certificate last encoded */

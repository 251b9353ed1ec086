//! The catalogues of the tool, transcribed as data.
pub static NAMES: [&str; 122] = [
"<Unknown>",
"Issuer Identification Number (IIN)",
"Application Dedicated File (ADF) Name",
"Application Label",
"Track 2 Equivalent Data",
"Application Primary Account Number (PAN)",
"Application Template",
"File Control Information (FCI) Template",
"READ RECORD Response Message Template",
"Issuer Script Template 1",
"Issuer Script Template 2",
"Directory Discretionary Template",
"Response Message Template Format 2",
"Response Message Template Format 1",
"Amount, Authorised (Binary)",
"Application Interchange Profile",
"Command Template",
"Dedicated File (DF) Name",
"Issuer Script Command",
"Application Priority Indicator",
"Short File Identifier (SFI)",
"Authorisation Code",
"Authorisation Response Code",
"Card Risk Management Data Object List 1 (CDOL1)",
"Card Risk Management Data Object List 2 (CDOL2)",
"CVM List",
"Certification Authority Public Key Index (ICC)",
"Issuer Public Key Certificate",
"Issuer Authentication Data",
"Issuer Public Key Remainder",
"Signed Static Application Data",
"Application File Locator (AFL)",
"Terminal Verification Results (TVR)",
"Transaction Certificate Data Object List (TDOL)",
"Transaction Certificate (TC) Hash Value",
"Transaction PIN Data",
"Transaction Date",
"Transaction Status Information (TSI)",
"Transaction Type",
"Directory Definition File (DDF) Name",
"File Control Information (FCI) Proprietary Template",
"Cardholder Name",
"Application Expiration Date",
"Application Effective Date",
"Issuer Country Code",
"Transaction Currency Code",
"Language Preference",
"Service Code",
"Application Primary Account Number (PAN) Sequence Number",
"Transaction Currency Exponent",
"Issuer URL",
"International Bank Account Number (IBAN)",
"Bank Identifier Code (BIC)",
"Issuer Country Code (alpha2 format)",
"Issuer Country Code (alpha3 format)",
"Account Type",
"Acquirer Identifier",
"Amount, Authorised (Numeric)",
"Amount, Other (Numeric)",
"Amount, Other (Binary)",
"Application Discretionary Data",
"Application Identifier (AID)",
"Application Usage Control",
"Application Version Number (ICC)",
"Application Version Number (Terminal)",
"Cardholder Name Extended",
"Issuer Action Code - Default",
"Issuer Action Code - Denial",
"Issuer Action Code - Online",
"Issuer Application Data (CCD-Compliant)",
"Issuer Code Table Index",
"Application Preferred Name",
"Last Online Application Transaction Counter (ATC) Register",
"Lower Consecutive Offline Limit",
"Merchant Category Code",
"Merchant Identifier",
"PIN Try Counter",
"Issuer Script Identifier",
"Terminal Country Code",
"Terminal Floor Limit",
"Terminal Identification",
"Terminal Risk Management Data",
"Interface Device (IFD/Terminal) Serial Number",
"Track 1 Discretionary Data",
"Track 2 Discretionary Data",
"Transaction Time",
"Certification Authority Public Key Index (Terminal)",
"Upper Consecutive Offline Limit",
"Application Cryptogram",
"Cryptogram Information Data (CID)",
"ICC PIN Encipherment Public Key Certificate",
"ICC PIN Encipherment Public Key Exponent",
"ICC PIN Encipherment Public Key Remainder",
"Issuer Public Key Exponent",
"Terminal Capabilities",
"CVM Results",
"Terminal Type",
"Application Transaction Counter (ATC)",
"Unpredictable Number",
"Processing Options Data Object List (PDOL)",
"POS Entry Mode",
"Amount, Reference Currency (Binary)",
"Application Reference Currency",
"Transaction Reference Currency Code",
"Transaction Reference Currency Exponent",
"Additional Terminal Capabilities",
"Transaction Sequence Counter",
"Application Currency Code",
"Application Reference Currency Exponent",
"Application Currency Exponent",
"Data Authentication Code",
"ICC Public Key Certificate",
"ICC Public Key Exponent",
"ICC Public Key Remainder",
"Dynamic Data Authentication Data Object List (DDOL)",
"Static Data Authentication Tag List",
"Signed Dynamic Application Data",
"ICC Dynamic Number",
"Log Entry",
"Merchant Name and Location",
"Log Format",
"File Control Information (FCI) Issuer Discretionary Data",
];
pub static TAG1: [u8; 256] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 3, 0, 0, 0, 0, 0, 0, 4, 0, 0, 5, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 8, 9, 10, 11, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 13, 14, 15, 16, 17, 0, 18, 19, 20, 21, 22, 0, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 0, 33, 34, 35, 36, 37, 38, 39, 0, 0, 0, 0, 0, 0, 0, 40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
pub static TAG_5F: [u8; 256] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 41, 0, 0, 0, 42, 43, 0, 0, 44, 0, 45, 0, 0, 46, 0, 0, 47, 0, 0, 0, 48, 0, 49, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 50, 0, 0, 51, 52, 53, 54, 55, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
pub static TAG_9F: [u8; 256] = [0, 56, 57, 58, 59, 60, 61, 62, 63, 64, 0, 65, 0, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 0, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 0, 0, 88, 89, 0, 0, 0, 0, 0, 90, 91, 92, 0, 0, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 0, 0, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
pub static TAG_BF: [u8; 256] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 121, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
/// By the two-digit code; empty = not in the catalogue.
pub static ARC: [&str; 100] = [
"Approval",
"Call",
"Call - Special Conditions",
"Terminal ID Error",
"Hold Card - Call",
"Decline - Do Not Honour",
"Error",
"Hold Card - Call - Special Conditions",
"Honour With Identification",
"No Original Transaction",
"Partial Approval",
"Approved (VIP)",
"Invalid Transaction",
"Invalid Amount",
"Invalid Card Number",
"No Such Issuer",
"Approved - Update Track 3",
"Customer Cancellation",
"Customer Dispute",
"Retry Transaction",
"Invalid Response",
"No Action Taken",
"Suspected Malfunction",
"Invalid Minimum Amount",
"File Update Not Supported",
"Invalid ICC Data",
"Duplicate File Update Record",
"File Update Field Edit Error",
"File Update File Locked Out",
"File Update Not Successful",
"Format Error",
"Bank Not Supported By Switch",
"Completed Partially",
"Expired Card",
"Suspected Fraud",
"Card Acceptor, Contact Acquirer",
"Restricted Card",
"Card Acceptor, Call Acquirer Security",
"Allowable PIN Retries Exceeded",
"No Credit Account",
"Requested Function Not Supported",
"Lost Card",
"No Universal Account",
"Stolen Card",
"No Investment Account",
"",
"",
"",
"",
"",
"",
"Insufficient Funds",
"No Chequing Account",
"No Savings Account",
"Expired Card",
"Incorrect PIN",
"No Card Record",
"Transaction Not Allowed For Cardholder",
"Transaction Not Allowed For Terminal",
"Suspected Fraud",
"Card Acceptor, Contact Acquirer",
"Debit Cashback Withdrawal Limit Decline",
"Restricted Card",
"Security Violation",
"Original Amount Incorrect",
"Decline - Insert Card (often due to too many contactless transactions)",
"Card Acceptor, Call Acquirer Security",
"ATM Hard Card Capture",
"Response Received Too Late",
"",
"",
"",
"",
"",
"",
"Allowable PIN Retries Exceeded",
"",
"",
"",
"",
"",
"",
"",
"",
"",
"",
"",
"",
"",
"",
"",
"Issuer Timeout",
"Issuer Routing Problem",
"Transaction Not Completed - Law Violation",
"Duplicate Transmission",
"Reconciliation Error",
"System Malfunction",
"",
"",
"",
];
pub static TXN: [&str; 9] = ["",
"Balance Inquiry",
"Cash Advance",
"Fund Transfer",
"Mini Statement",
"Purchase",
"Purchase With Cashback",
"Refund",
"Void",
];
pub static TXN_IDX: [u8; 256] = [5, 2, 8, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
pub static TERM: [&str; 16] = ["",
"Attended, Offline With Online Capabilities, Controlled by a Financial Institution",
"Attended, Offline With Online Capabilities, Controlled by a Merchant",
"Attended, Offline-Only, Controlled by a Financial Institution",
"Attended, Offline-Only, Controlled by a Merchant",
"Attended, Online-Only, Controlled by a Financial Institution",
"Attended, Online-Only, Controlled by a Merchant",
"Unattended, Offline With Online Capabilities, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)",
"Unattended, Offline With Online Capabilities, Controlled by a Merchant",
"Unattended, Offline With Online Capabilities, Controlled by the Cardholder (self-attended, home PC, etc.)",
"Unattended, Offline-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)",
"Unattended, Offline-Only, Controlled by a Merchant",
"Unattended, Offline-Only, Controlled by the Cardholder (self-attended, home PC, etc.)",
"Unattended, Online-Only, Controlled by a Financial Institution (ATM if it supports Cash Disbursement)",
"Unattended, Online-Only, Controlled by a Merchant",
"Unattended, Online-Only, Controlled by the Cardholder (self-attended, home PC, etc.)",
];
pub static TERM_IDX: [u8; 256] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 1, 3, 13, 7, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 2, 4, 14, 8, 11, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 15, 9, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
pub static POS: [&str; 18] = ["",
"Barcode",
"Contactless Chip (contactless/tap transaction)",
"Contactless Chip (contactless/tap transaction) - Contactless Mapping Service Applied",
"Contactless Magnetic Stripe Data (MSD)",
"E-Commerce - Including Chip",
"E-Commerce - Including Remote Chip",
"ICC Could Not Process - Fallback to MSR",
"Integrated Circuit Chip (ICC) - Data Reliable (contact/insert transaction) (CVV can be checked)",
"Integrated Circuit Chip (ICC) - Data Unreliable (contact/insert transaction) (CVV cannot be checked)",
"Magnetic Stripe Reader (MSR)",
"Magnetic Stripe Reader (MSR) - Full Track Data - Data Reliable (CVV can be checked)",
"Magnetic Stripe Track 1",
"Manual (keyed entry)",
"Merchant Has Cardholder Credentials On File (token, recurring payment, etc.)",
"Optical Character Recognition (OCR)",
"Unknown",
"Via a Server (issuer, acquirer, third-party vendor)",
];
pub static POS_IDX: [u8; 256] = [16, 13, 10, 1, 15, 8, 12, 2, 3, 6, 0, 0, 0, 0, 0, 0, 14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 5, 17, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 11, 4, 3, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];

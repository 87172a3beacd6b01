
use crate::ops::*;
pub static ROOTS: &[Root] = &[
    root!("admi_024_001_01", "NotificationOfCorrespondenceV01", mx_message::document::admi_024_001_01::NotificationOfCorrespondenceV01),
    root!("bah_admi_024_001_01", "BusinessApplicationHeaderV02", mx_message::header::bah_admi_024_001_01::BusinessApplicationHeaderV02),
    root!("bah_camt_025_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_025_001_08::BusinessApplicationHeaderV02),
    root!("bah_camt_029_001", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_029_001::BusinessApplicationHeaderV02),
    root!("bah_camt_052_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_052_001_08::BusinessApplicationHeaderV02),
    root!("bah_camt_053_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_053_001_08::BusinessApplicationHeaderV02),
    root!("bah_camt_054_001", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_054_001::BusinessApplicationHeaderV02),
    root!("bah_camt_055_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_055_001_08::BusinessApplicationHeaderV02),
    root!("bah_camt_056_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_056_001_08::BusinessApplicationHeaderV02),
    root!("bah_camt_057_001_06", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_057_001_06::BusinessApplicationHeaderV02),
    root!("bah_camt_058_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_058_001_08::BusinessApplicationHeaderV02),
    root!("bah_camt_060_001_05", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_060_001_05::BusinessApplicationHeaderV02),
    root!("bah_camt_105_001_02", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_105_001_02::BusinessApplicationHeaderV02),
    root!("bah_camt_105_001_02_mc", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_105_001_02_mc::BusinessApplicationHeaderV02),
    root!("bah_camt_106_001_02", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_106_001_02::BusinessApplicationHeaderV02),
    root!("bah_camt_106_001_02_mc", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_106_001_02_mc::BusinessApplicationHeaderV02),
    root!("bah_camt_107_001_01", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_107_001_01::BusinessApplicationHeaderV02),
    root!("bah_camt_108_001_01", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_108_001_01::BusinessApplicationHeaderV02),
    root!("bah_camt_109_001_01", "BusinessApplicationHeaderV02", mx_message::header::bah_camt_109_001_01::BusinessApplicationHeaderV02),
    root!("bah_pacs_002_001_10", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_002_001_10::BusinessApplicationHeaderV02),
    root!("bah_pacs_003_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_003_001_08::BusinessApplicationHeaderV02),
    root!("bah_pacs_004_001_09", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_004_001_09::BusinessApplicationHeaderV02),
    root!("bah_pacs_008_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_008_001_08::BusinessApplicationHeaderV02),
    root!("bah_pacs_008_001_08_stp", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_008_001_08_stp::BusinessApplicationHeaderV02),
    root!("bah_pacs_009_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_009_001_08::BusinessApplicationHeaderV02),
    root!("bah_pacs_009_001_08_adv", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_009_001_08_adv::BusinessApplicationHeaderV02),
    root!("bah_pacs_009_001_08_cov", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_009_001_08_cov::BusinessApplicationHeaderV02),
    root!("bah_pacs_010_001_03", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_010_001_03::BusinessApplicationHeaderV02),
    root!("bah_pacs_010_001_03_mc", "BusinessApplicationHeaderV02", mx_message::header::bah_pacs_010_001_03_mc::BusinessApplicationHeaderV02),
    root!("bah_pain_001_001_09", "BusinessApplicationHeaderV02", mx_message::header::bah_pain_001_001_09::BusinessApplicationHeaderV02),
    root!("bah_pain_002_001_10", "BusinessApplicationHeaderV02", mx_message::header::bah_pain_002_001_10::BusinessApplicationHeaderV02),
    root!("bah_pain_008_001_08", "BusinessApplicationHeaderV02", mx_message::header::bah_pain_008_001_08::BusinessApplicationHeaderV02),
    root!("camt_025_001_08", "ReceiptV08", mx_message::document::camt_025_001_08::ReceiptV08),
    root!("camt_029_001_09", "ResolutionOfInvestigationV09", mx_message::document::camt_029_001_09::ResolutionOfInvestigationV09),
    root!("camt_052_001_08", "BankToCustomerAccountReportV08", mx_message::document::camt_052_001_08::BankToCustomerAccountReportV08),
    root!("camt_053_001_08", "BankToCustomerStatementV08", mx_message::document::camt_053_001_08::BankToCustomerStatementV08),
    root!("camt_054_001_08", "BankToCustomerDebitCreditNotificationV08", mx_message::document::camt_054_001_08::BankToCustomerDebitCreditNotificationV08),
    root!("camt_055_001_08", "CustomerPaymentCancellationRequestV08", mx_message::document::camt_055_001_08::CustomerPaymentCancellationRequestV08),
    root!("camt_056_001_08", "FIToFIPaymentCancellationRequestV08", mx_message::document::camt_056_001_08::FIToFIPaymentCancellationRequestV08),
    root!("camt_057_001_06", "NotificationToReceiveV06", mx_message::document::camt_057_001_06::NotificationToReceiveV06),
    root!("camt_058_001_08", "NotificationToReceiveCancellationAdviceV08", mx_message::document::camt_058_001_08::NotificationToReceiveCancellationAdviceV08),
    root!("camt_060_001_05", "AccountReportingRequestV05", mx_message::document::camt_060_001_05::AccountReportingRequestV05),
    root!("camt_105_001_02", "ChargesPaymentNotificationV02", mx_message::document::camt_105_001_02::ChargesPaymentNotificationV02),
    root!("camt_105_001_02_mc", "ChargesPaymentNotificationV02", mx_message::document::camt_105_001_02_mc::ChargesPaymentNotificationV02),
    root!("camt_106_001_02", "ChargesPaymentRequestV02", mx_message::document::camt_106_001_02::ChargesPaymentRequestV02),
    root!("camt_106_001_02_mc", "ChargesPaymentRequestV02", mx_message::document::camt_106_001_02_mc::ChargesPaymentRequestV02),
    root!("camt_107_001_01", "ChequePresentmentNotificationV01", mx_message::document::camt_107_001_01::ChequePresentmentNotificationV01),
    root!("camt_108_001_01", "ChequeCancellationOrStopRequestV01", mx_message::document::camt_108_001_01::ChequeCancellationOrStopRequestV01),
    root!("camt_109_001_01", "ChequeCancellationOrStopReportV01", mx_message::document::camt_109_001_01::ChequeCancellationOrStopReportV01),
    root!("pacs_002_001_10", "FIToFIPaymentStatusReportV10", mx_message::document::pacs_002_001_10::FIToFIPaymentStatusReportV10),
    root!("pacs_003_001_08", "FIToFICustomerDirectDebitV08", mx_message::document::pacs_003_001_08::FIToFICustomerDirectDebitV08),
    root!("pacs_004_001_09", "PaymentReturnV09", mx_message::document::pacs_004_001_09::PaymentReturnV09),
    root!("pacs_008_001_08", "FIToFICustomerCreditTransferV08", mx_message::document::pacs_008_001_08::FIToFICustomerCreditTransferV08),
    root!("pacs_008_001_08_stp", "FIToFICustomerCreditTransferV08", mx_message::document::pacs_008_001_08_stp::FIToFICustomerCreditTransferV08),
    root!("pacs_009_001_08", "FinancialInstitutionCreditTransferV08", mx_message::document::pacs_009_001_08::FinancialInstitutionCreditTransferV08),
    root!("pacs_009_001_08_adv", "FinancialInstitutionCreditTransferV08", mx_message::document::pacs_009_001_08_adv::FinancialInstitutionCreditTransferV08),
    root!("pacs_009_001_08_cov", "FinancialInstitutionCreditTransferV08", mx_message::document::pacs_009_001_08_cov::FinancialInstitutionCreditTransferV08),
    root!("pacs_010_001_03", "FinancialInstitutionDirectDebitV03", mx_message::document::pacs_010_001_03::FinancialInstitutionDirectDebitV03),
    root!("pacs_010_001_03_mc", "FinancialInstitutionDirectDebitV03", mx_message::document::pacs_010_001_03_mc::FinancialInstitutionDirectDebitV03),
    root!("pain_001_001_09", "CustomerCreditTransferInitiationV09", mx_message::document::pain_001_001_09::CustomerCreditTransferInitiationV09),
    root!("pain_002_001_10", "CustomerPaymentStatusReportV10", mx_message::document::pain_002_001_10::CustomerPaymentStatusReportV10),
    root!("pain_008_001_08", "CustomerDirectDebitInitiationV08", mx_message::document::pain_008_001_08::CustomerDirectDebitInitiationV08),
];
